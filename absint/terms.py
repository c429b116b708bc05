"""Hash-consed value-number terms with normal forms.

A term is the abstract value of an expression of the analysed program.  Terms
are interned, so two program points computing the same normal form share one
object (global value numbering).  Normal forms:

 * numbers        multivariate polynomials with exact rational coefficients
                  over atoms (see `poly`);
 * bit fields     `bits(buf, off, width, signed)`: adjacent slices glued by
                  shift/add or split by shift/mask are put back together;
 * conditions     atoms eq/lt/in..., with not/and/or;
 * joins          ordered decision diagrams `ite(cond, a, b)` whose decision
                  variables are condition atoms, with infeasible branches
                  (contradicting an equality or an ordering above) removed.

Nothing of the analysed program is executed; these are expressions extracted
from its syntax tree.
"""
import hashlib
import math
from fractions import Fraction

_TAB = {}
_M = {}


class T:
    __slots__ = ('op', 'args', 'dg', 'ite', 'phi', '_s', 'deps', 'sz')

    def __repr__(self):
        return pp(self)

    def __reduce__(self):
        raise TypeError('terms are not picklable')


class Big(Exception):
    """normal form grew beyond the bound"""


def _h(s):
    return hashlib.blake2b(s.encode(), digest_size=9).hexdigest()


def _argd(a):
    if isinstance(a, T):
        return a.dg
    if isinstance(a, tuple):
        return '(' + ','.join(_argd(x) for x in a) + ')'
    if isinstance(a, Fraction):
        return num_s(a)
    return type(a).__name__ + ':' + repr(a)


def _sz(a):
    if isinstance(a, T):
        return a.sz
    if isinstance(a, tuple):
        return sum(_sz(x) for x in a)
    return 0


def tsize(t):
    return t.sz


def _hasphi(a):
    if isinstance(a, T):
        return a.phi
    if isinstance(a, tuple):
        return any(_hasphi(x) for x in a)
    return False


def _hasite(a):
    if isinstance(a, T):
        return a.ite
    if isinstance(a, tuple):
        return any(_hasite(x) for x in a)
    return False


def mk(op, *args):
    key = (op,) + tuple(('f', a) if isinstance(a, Fraction) else
                        (type(a).__name__, a) if not isinstance(a, (T, tuple))
                        else a for a in args)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        if op == 'obj':
            t.dg = _h('obj:' + str(args[1]))
        else:
            t.dg = _h(op + '|' + '|'.join(_argd(a) for a in args))
        t.ite = op in ('ite', 'eq', 'lt', 'is', 'in', 'isdef', 'truth', 'bool', 'not',
                       'and', 'or') or any(_hasite(a) for a in args)
        t.phi = op == 'phi' or any(_hasphi(a) for a in args)
        t._s = None
        t.deps = None
        t.sz = min(1 + sum(_sz(a) for a in args), 1 << 40)
        _TAB[key] = t
    return t


def reset():
    """start a fresh term universe (constants are re-interned)"""
    global NONE, TRUE, FALSE, UNDEF, ZERO, ONE, NAN, ELLIPSIS
    _TAB.clear()
    _R.clear()
    _M.clear()
    Asm.tab.clear()
    NONE = mk('c', None)
    TRUE = mk('c', True)
    FALSE = mk('c', False)
    UNDEF = mk('undef')
    ZERO = mk('c', 0)
    ONE = mk('c', 1)
    NAN = mk('nan')
    ELLIPSIS = mk('ellipsis')


# ---------------------------------------------------------------- constants

def num_s(f):
    if f.denominator == 1:
        n = f.numerator
        if abs(n) < 10**15:
            return str(n)
        s = '%.12e' % n
        if int(float(n)) == n and abs(n) < 2**80:
            l2 = abs(n).bit_length()-1
            if (1 << l2) == abs(n):
                return ('-' if n < 0 else '') + '2^%d' % l2
        return str(n)
    d = f.denominator
    n = f.numerator
    if abs(n) == 1 and (d & (d-1)) == 0:
        return ('-' if n < 0 else '') + '2^-%d' % (d.bit_length()-1)
    return '%.12g' % float(f)


def const(v):
    """constant term of a Python value"""
    if v is None or isinstance(v, bool):
        return mk('c', v)
    if isinstance(v, int):
        return mk('c', int(v))
    if isinstance(v, float):
        if math.isnan(v):
            return NAN
        if math.isinf(v):
            return mk('inf', v > 0)
        f = Fraction(v)
        if abs(f.numerator) > (1 << 20):
            f = Fraction(repr(v))
        return fnum(f)
    if isinstance(v, Fraction):
        return fnum(v)
    if isinstance(v, (str, bytes)):
        return mk('c', v)
    if isinstance(v, tuple):
        return mk('tuple', tuple(const(x) for x in v))
    if v is Ellipsis:
        return ELLIPSIS
    return mk('c', repr(v))


def fnum(f):
    if f.denominator == 1:
        return mk('c', int(f.numerator))
    return mk('c', f)


def isconst(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def isnum(t):
    """numeric constant (bool included) -> Fraction or None"""
    if t.op == 'c':
        v = t.args[0]
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
    return None


def sym(name):
    return mk('sym', name)


NONNUM = ('tuple', 'dict', 'obj', 'func', 'cls', 'ext', 'bound', 'strcat',
          'undef', 'nan', 'comp', 'concat', 'slice3', 'gfmt')


def maybenum(t):
    if t.op == 'c':
        return isnum(t) is not None
    return t.op not in NONNUM


# --------------------------------------------------------------- polynomials

def pget(t):
    """term -> dict monomial -> Fraction"""
    if t.op == 'poly':
        return dict(t.args[0])
    n = isnum(t)
    if n is not None:
        return {(): n} if n else {}
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((a.dg, p) for a, p in m)


def pmake(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) > 400:
        raise Big()
    for m in d:
        for a, _ in m:
            if a is NAN:
                return NAN
    d = _glue(d)
    d = _unfloor(d)
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return fnum(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: _mkey(kv[0])))
    return mk('poly', items)


def _unfloor(d):
    """k*b*(x // b)  ->  k*(x - x % b)   for a numeric b"""
    hit = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floordiv':
            b = isnum(m[0][0].args[1])
            if b and (c/b).denominator == 1:
                hit = hit or []
                hit.append((m, c/b, m[0][0].args))
    if not hit:
        return d
    d = dict(d)
    for m, k, (x, b) in hit:
        if m not in d:
            continue
        del d[m]
        for p, s in ((x, k), (mk('mod', x, b), -k)):
            for m2, c2 in pget(p).items():
                d[m2] = d.get(m2, 0) + s*c2
    return {m: c for m, c in d.items() if c != 0}


def _glue(d):
    """merge  k*2^w2*bits(b,o,w1) + k*bits(b,o+w1,w2)  into k*bits(b,o,w1+w2)
    for constant widths"""
    bs = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1
          and m[0][0].op == 'bits' and isnum(m[0][0].args[2]) is not None]
    if len(bs) < 2:
        return d
    changed = True
    d = dict(d)
    while changed:
        changed = False
        bs = [m for m in d if len(m) == 1 and m[0][1] == 1
              and m[0][0].op == 'bits' and isnum(m[0][0].args[2]) is not None]
        ends = {}
        for m in bs:
            buf, off, w, s = m[0][0].args
            if not s:
                ends.setdefault((buf, off), []).append(m)
        for m in bs:
            buf, off, w, s = m[0][0].args
            if m not in d:
                continue
            for m2 in ends.get((buf, add(off, w)), ()):
                if m2 == m or m2 not in d or m not in d:
                    continue
                w2 = m2[0][0].args[2]
                if d[m] == d[m2]*(Fraction(2)**int(isnum(w2))):
                    k = d[m2]
                    nb = bits(buf, off, add(w, w2), s)
                    if nb.op != 'bits':
                        continue
                    del d[m], d[m2]
                    nm = ((nb, 1),)
                    d[nm] = d.get(nm, 0) + k
                    changed = True
        d = {m: c for m, c in d.items() if c != 0}
    return d


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pget(t).items():
            d[m] = d.get(m, 0) + c
    return pmake(d)


def scale(t, k):
    k = Fraction(k)
    return pmake({m: c*k for m, c in pget(t).items()})


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def _mmul(m1, m2):
    d = {}
    for a, p in m1:
        d[a] = d.get(a, 0) + p
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p != 0),
                        key=lambda x: x[0].dg))


def mul(a, b):
    pa, pb = pget(a), pget(b)
    if len(pa)*len(pb) > 400:
        raise Big()
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1*c2
    return pmake(d)


def inv(b):
    n = isnum(b)
    if n is not None:
        if n == 0:
            return mk('inv', b)
        return fnum(1/n)
    pb = pget(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        return pmake({tuple((a, -p) for a, p in m): 1/c})
    # normalise leading coefficient
    lead = min(pb, key=_mkey)
    k = pb[lead]
    nb = scale(b, 1/k)
    return scale(mk('inv', nb), 1/k)


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(a, -n))
    r = a
    for _ in range(n-1):
        r = mul(r, a)
    return r


def isint(t):
    k = ('isint', t)
    r = _M.get(k, _M)
    if r is _M:
        r = _M[k] = _isint(t)
    return r


def _isint(t):
    op = t.op
    if op == 'c':
        v = t.args[0]
        return isinstance(v, int)
    if op in ('bits', 'lv', 'len', 'int'):
        return True
    if op == 'poly':
        return all(c.denominator == 1 and all(p > 0 and isint(a)
                                             for a, p in m)
                   for m, c in t.args[0])
    if op == 'ite':
        return isint(t.args[1]) and isint(t.args[2])
    if op in ('floordiv', 'mod', 'band', 'bor', 'bxor', 'shl', 'shr'):
        return all(isint(x) for x in t.args)
    if op == 'call' and t.args[0] in ('len', 'int', 'floor', 'prn2sat', 'id2sat',
                                      'Crc24LteA.calc'):
        return True
    if op == 'mu':
        return True
    return False


def nonneg(t):
    k = ('nonneg', t)
    r = _M.get(k, _M)
    if r is _M:
        r = _M[k] = _nonneg(t)
    return r


def _nonneg(t):
    op = t.op
    if op == 'c':
        n = isnum(t)
        return n is not None and n >= 0
    if op == 'bits':
        return not t.args[3]
    if op in ('lv', 'len'):
        return True
    if op == 'poly':
        return all(c > 0 and all(nonneg(a) for a, p in m)
                   for m, c in t.args[0])
    if op == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


def umax(t):
    k = ('umax', t)
    r = _M.get(k, _M)
    if r is _M:
        r = _M[k] = _umax(t)
    return r


def _umax(t):
    """upper bound of a non-negative integer term or None"""
    op = t.op
    if op == 'c':
        n = isnum(t)
        return None if n is None else int(n)
    if op == 'bits':
        w = isnum(t.args[2])
        return None if (w is None or t.args[3]) else (1 << int(w))-1
    if op == 'poly':
        s = 0
        for m, c in t.args[0]:
            v = c
            for a, p in m:
                u = umax(a)
                if u is None:
                    return None
                v *= u**p
            s += v
        return s
    if op == 'ite':
        a, b = umax(t.args[1]), umax(t.args[2])
        return None if a is None or b is None else max(a, b)
    return None


# ----------------------------------------------------------------- bit fields

def bits(buf, off, w, signed):
    if not isinstance(signed, bool):
        signed = bool(signed)
    n = isnum(w)
    if n == 0:
        return ZERO
    return mk('bits', buf, off, w, signed)


def bmask(t):
    k = ('bmask', t)
    r = _M.get(k, _M)
    if r is _M:
        r = _M[k] = _bmask(t)
    return r


def _bmask(t):
    """possible-one mask of an unsigned integer term, or None"""
    op = t.op
    if op == 'c':
        n = isnum(t)
        return int(n) if n is not None and n >= 0 and n.denominator == 1 \
            else None
    if op == 'bits':
        w = isnum(t.args[2])
        return (1 << int(w))-1 if w is not None and not t.args[3] else None
    if op == 'ite':
        a, b = bmask(t.args[1]), bmask(t.args[2])
        return None if a is None or b is None else a | b
    if op == 'poly':
        r = 0
        for m, c in t.args[0]:
            if c.denominator != 1 or c <= 0:
                return None
            k = int(c)
            if m == ():
                v = k
            else:
                if len(m) != 1 or m[0][1] != 1 or k & (k-1):
                    return None
                u = bmask(m[0][0])
                if u is None:
                    return None
                v = u*k
            if r & v:
                return None
            r |= v
        return r
    return None


def shl(a, b):
    n = isnum(b)
    if n is not None and n >= 0:
        return scale(a, 2**int(n))
    x = isnum(a)
    p = b
    k = Fraction(1)
    if b.op == 'poly':
        c = Fraction(pget(b).get((), 0))
        if c and c.denominator == 1 and abs(c) < 200:
            p, k = sub(b, const(c)), Fraction(2)**int(c)
    if x is not None:
        return scale(mk('pow2', p), x*k)
    return scale(mul(a, mk('pow2', p)), k)


def shr(a, b):
    n = isnum(b)
    x = isnum(a)
    if n is not None and x is not None:
        return const(int(x) >> int(n))
    if n is not None:
        n = int(n)
        if n == 0:
            return a
        if a.op == 'bits':
            w = isnum(a.args[2])
            if w is not None:
                if w > n:
                    return bits(a.args[0], a.args[1], const(int(w)-n),
                                a.args[3])
                if not a.args[3]:
                    return ZERO
        return floordiv(a, const(1 << n)) if n > 0 else mk('shr', a, b)
    return mk('shr', a, b)


def _splitlow(t, n):
    """unsigned term -> (high, low) at bit n, when decidable"""
    if bmask(t) is None:
        return None
    hi, lo = {}, {}
    for m, c in pget(t).items():
        k = int(c)
        if m == ():
            hi[()] = Fraction(k >> n)
            lo[()] = Fraction(k & ((1 << n)-1))
            continue
        a = m[0][0]
        sh = k.bit_length()-1
        if sh >= n:
            hi[m] = hi.get(m, 0) + Fraction(1 << (sh-n))
            continue
        u = bmask(a)
        if (u << sh) < (1 << n):
            lo[m] = lo.get(m, 0) + Fraction(k)
            continue
        if a.op != 'bits':
            return None
        w = int(isnum(a.args[2]))
        nl = n-sh        # low nl bits of a go to lo
        ha = bits(a.args[0], a.args[1], const(w-nl), False)
        la = bits(a.args[0], add(a.args[1], const(w-nl)), const(nl), False)
        hi[((ha, 1),)] = hi.get(((ha, 1),), 0) + 1
        lo[((la, 1),)] = lo.get(((la, 1),), 0) + Fraction(1 << sh)
    return pmake(hi), pmake(lo)


def band(a, b):
    x, y = isnum(a), isnum(b)
    if x is not None and y is not None:
        return const(int(x) & int(y))
    if x is not None:
        a, b, x, y = b, a, y, x
    if y is not None:
        k = int(y)
        if k == 0:
            return ZERO
        if k > 0 and (k & (k+1)) == 0:      # low mask
            n = k.bit_length()
            if a.op == 'bits' and a.args[3]:
                w = isnum(a.args[2])
                if w is not None and w >= n:
                    return bits(a.args[0], add(a.args[1], const(int(w)-n)),
                                const(n), False)
            u = bmask(a)
            if u is not None and u <= k:
                return a
            r = _splitlow(a, n)
            if r is not None:
                return r[1]
        elif k > 0:
            # contiguous mask
            sh = (k & -k).bit_length()-1
            kk = k >> sh
            if (kk & (kk+1)) == 0 and bmask(a) is not None:
                r = _splitlow(a, sh)
                if r is not None:
                    return shl(band(r[0], const(kk)), const(sh))
        return mk('band', a, b)
    if a.dg > b.dg:
        a, b = b, a
    if a is b:
        return a
    return mk('band', a, b)


def _join(a, b):
    """two byte reads side by side as one field, or None"""
    for x, y in ((a, b), (b, a)):
        k, t = _coef(y)
        if k is None:
            continue
        if x.op == 'idx':
            w, o, c = 8, scale(x.args[1], 8), x.args[0]
        elif x.op == 'bits' and not x.args[3] and isnum(x.args[2]):
            w, o, c = int(isnum(x.args[2])), x.args[1], x.args[0]
        else:
            continue
        if k == 1 << w and t.op == 'idx' and t.args[0] is c and \
                sub(o, scale(t.args[1], 8)) is const(8):
            return bits(c, scale(t.args[1], 8), const(8+w), False)
    return None


def _coef(t):
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if len(m) == 1 and m[0][1] == 1 and c > 1:
            return c, m[0][0]
    return None, None


def bor(a, b, op='bor'):
    x, y = isnum(a), isnum(b)
    if x is not None and y is not None:
        return const(int(x) | int(y) if op == 'bor' else int(x) ^ int(y))
    if x == 0:
        return b
    if y == 0:
        return a
    l = []
    for t in (a, b):
        s = [t]
        while s:
            t = s.pop()
            if t.op == op:
                s += t.args[:2]
            else:
                l.append(t)
    k = 0
    known, rest = [], []
    for t in sorted(l, key=lambda t: t.dg):
        n = isnum(t)
        if n is not None:
            k = k | int(n) if op == 'bor' else k ^ int(n)
        elif bmask(t) is not None:
            for i, u in enumerate(known):
                if not bmask(u) & bmask(t):
                    known[i] = add(u, t)
                    break
            else:
                known.append(t)
        else:
            rest.append(t)
    if k:
        for i, u in enumerate(known):
            if k >= 0 and not bmask(u) & k:
                known[i] = add(u, const(k))
                k = 0
                break
    out = known + rest + ([const(k)] if k else [])
    if op == 'bor' and len(out) > 1:
        done = False
        while not done and len(out) > 1:
            done = True
            for i in range(len(out)):
                for j in range(i):
                    r = _join(out[i], out[j])
                    if r is not None:
                        out[j] = r
                        del out[i]
                        done = False
                        break
                if not done:
                    break
    out.sort(key=lambda t: (isnum(t) is not None, t.dg))
    r = None
    for t in out:
        if r is None:
            r = t
        elif op == 'bor' and (r is t or r.op == op and r.args[1] is t):
            continue
        else:
            r = mk(op, r, t)
    return ZERO if r is None else r


def floordiv(a, b):
    x, y = isnum(a), isnum(b)
    if x is not None and y:
        return const(Fraction(x // y))
    if y is not None and y.denominator == 1 and y > 0:
        k = int(y)
        if k == 1 and isint(a):
            return a
        if k & (k-1) == 0 and bmask(a) is not None:
            r = _splitlow(a, k.bit_length()-1)
            if r is not None:
                return r[0]
    if b.op == 'pow2':
        return mk('shr', a, b.args[0])
    if y and a.op == 'poly':
        q, a2 = _multiples(a, y)
        if q is not None:
            return add(q, floordiv(a2, b))
        for m, c in a.args[0]:      # (x - x % b) // b
            if c == -1 and len(m) == 1 and m[0][1] == 1 and \
                    m[0][0].op == 'mod' and m[0][0].args[1] is b:
                return add(floordiv(m[0][0].args[0], b), scale(
                    sub(add(a, m[0][0]), m[0][0].args[0]), 1/y)) \
                    if _allmult(sub(add(a, m[0][0]), m[0][0].args[0]), y) \
                    else mk('floordiv', a, b)
    return mk('floordiv', a, b)


def _allmult(a, y):
    return all((c/y).denominator == 1 and all(isint(x) and p > 0
                                              for x, p in m)
               for m, c in pget(a).items())


def _multiples(a, y):
    """split the whole multiples of y off a sum: (quotient, rest) or None"""
    q, rest = {}, {}
    for m, c in a.args[0]:
        c = Fraction(c)
        if all(isint(x) and p > 0 for x, p in m):
            n = (c/y).__floor__() if m == () else (c/y)
            if n.denominator == 1 if m else n:
                q[m] = Fraction(n)
                if m == () and c - n*y:
                    rest[m] = c - n*y
                continue
        rest[m] = c
    if not q:
        return None, a
    return pmake(q), pmake(rest)


def mod(a, b):
    x, y = isnum(a), isnum(b)
    if x is not None and y:
        return const(x - y*(x // y))
    if y is not None and y.denominator == 1 and y > 0:
        k = int(y)
        if k & (k-1) == 0 and bmask(a) is not None:
            return band(a, const(k-1))
    if y and a.op == 'poly':
        q, a2 = _multiples(a, y)
        if q is not None:
            return mod(a2, b)
    if y is not None and y.denominator == 1 and y > 1 and isint(a) and \
            int(y) & (int(y)-1) == 0:
        return band(a, const(int(y)-1))
    return mk('mod', a, b)


# ----------------------------------------------------------------- conditions

def _lin(a, b):
    """a ? b -> (lhs poly without constant, normalised; rhs Fraction; flip)"""
    d = pget(sub(a, b))
    k = d.pop((), Fraction(0))
    if not d:
        return None, k, 1
    lead = min(d, key=_mkey)
    s = d[lead]
    lhs = pmake({m: c/abs(s) for m, c in d.items()})
    rhs = -k/abs(s)
    if s < 0:
        return neg(lhs), -rhs, -1
    return lhs, rhs, 1


def nonnumc(t):
    return t.op in ('c',) and isnum(t) is None or t.op in NONNUM


def notnone(t):
    if t.op in ('tuple', 'obj', 'dict', 'poly', 'bits', 'comp', 'strcat',
                'concat', 'pack', 'len', 'lv', 'bytes', 'arrv', 'acc'):
        return True
    if t.op == 'call' and isinstance(t.args[0], str):   # instance of a class
        nm = t.args[0].split('.')[-1]
        return nm[:1].isupper() and '.' in t.args[0][1:]
    return False


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' and b.op == 'c' and tsize(a) < 800:
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and a.op == 'c' and tsize(b) < 800:
        return eq(b, a)
    if nonnumc(a) or nonnumc(b):
        if a.op == 'c' and b.op == 'c':
            va, vb = cval(a), cval(b)
            return const(va == vb)
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args[0]) != len(b.args[0]):
                return FALSE
            return conj(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
        if a.op == 'c' and cval(a) is None and notnone(b) or \
           b.op == 'c' and cval(b) is None and notnone(a):
            return FALSE
        if a.dg > b.dg:
            a, b = b, a
        return mk('eq', a, b)
    try:
        lhs, rhs, _ = _lin(a, b)
    except Big:
        lhs = mk('sub', a, b)
        rhs = Fraction(0)
    if lhs is None:
        return const(rhs == 0)
    if rhs.denominator != 1 and isint(lhs):
        return FALSE
    if nonneg(lhs):
        if rhs < 0:
            return FALSE
        u = umax(lhs)
        if u is not None and rhs > u:
            return FALSE
        if u == 1 and rhs == 1:
            return lnot(mk('eq', lhs, ZERO))
    if lhs.op == 'band' and rhs:
        # a single bit is either clear or set
        k = isnum(lhs.args[1])
        if k is None:
            k = isnum(lhs.args[0])
        if k is not None and k > 0 and int(k) == k and \
                int(k) & (int(k)-1) == 0:
            return lnot(mk('eq', lhs, ZERO)) if rhs == k else FALSE
    return mk('eq', lhs, fnum(rhs))


def lt(a, b, orequal=False):
    """a < b  (or a <= b)"""
    if a.op == 'tuple' or b.op == 'tuple' or nonnumc(a) or nonnumc(b):
        if a.op == 'c' and b.op == 'c':
            try:
                return const(cval(a) <= cval(b) if orequal
                             else cval(a) < cval(b))
            except TypeError:
                pass
        if orequal:
            return lnot(mk('ltg', b, a))
        return mk('ltg', a, b)
    try:
        lhs, rhs, flip = _lin(a, b)
    except Big:
        return mk('ltg', a, b)
    if lhs is None:
        return const(rhs <= 0 if orequal else rhs < 0)
    neg_ = False
    if flip < 0:
        # -L < -r  (or <=)  <=>  L > r (>=)  <=> not (L <= r) (not L < r)
        neg_ = True
        orequal = not orequal
    if isint(lhs):
        if orequal:
            rhs = Fraction(math.floor(rhs)+1)
        else:
            rhs = Fraction(math.ceil(rhs))
        orequal = False
        if nonneg(lhs):
            u = umax(lhs)
            if rhs <= 0:
                r = FALSE
            elif u is not None and u < rhs:
                r = TRUE
            elif rhs == 1:
                r = eq(lhs, ZERO)
            else:
                r = mk('lt', lhs, fnum(rhs), False)
            return lnot(r) if neg_ else r
    r = mk('lt', lhs, fnum(rhs), orequal)
    return lnot(r) if neg_ else r


def truth(t):
    """truth value of a term"""
    if t.op == 'c':
        v = t.args[0]
        return const(bool(v))
    if t.op in ('eq', 'lt', 'ltg', 'is', 'in', 'isdef', 'bool', 'not', 'and', 'or'):
        return t
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'tuple':
        return const(len(t.args[0]) > 0)
    if t.op in ('obj', 'func', 'cls', 'bound'):
        return mk('bool', t)
    if t.op == 'nan':
        return TRUE
    return lnot(eq(t, ZERO))


def lnot(t):
    if t.op == 'c':
        return const(not bool(cval(t)))
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return disj(*[lnot(x) for x in t.args[0]])
    if t.op == 'or':
        return conj(*[lnot(x) for x in t.args[0]])
    if t.op == 'ite':
        return ite(t.args[0], lnot(t.args[1]), lnot(t.args[2]))
    return mk('not', t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args[0])
        else:
            out.append(t)
    return out


def conj(*ts):
    s = {}
    for t in _flat('and', ts):
        t = truth(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        s[t] = 1
    for t in s:
        if lnot(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda x: x.dg)))


def disj(*ts):
    s = {}
    for t in _flat('or', ts):
        t = truth(t)
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        s[t] = 1
    for t in s:
        if lnot(t) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk('or', tuple(sorted(s, key=lambda x: x.dg)))


# ----------------------------------------------------------------- decisions

ATOMS = ('eq', 'lt', 'ltg', 'is', 'in', 'isdef', 'bool', 'isinst', 'opqc')


def entail(atom, assume):
    """truth of `atom` under assumptions {atom: bool}, or None"""
    v = assume.get(atom)
    if v is not None:
        return v
    if atom.op in ('eq', 'lt') and atom.args[1].op == 'c':
        lhs = atom.args[0]
        for a, av in assume.items():
            if a.op not in ('eq', 'lt') or a.args[0] is not lhs or \
                    a.args[1].op != 'c':
                continue
            r = _implies(a, av, atom)
            if r is not None:
                return r
    return None


def _implies(a, av, b):
    ca, cb = isnum(a.args[1]), isnum(b.args[1])
    if ca is None or cb is None:
        if a.op == 'eq' and b.op == 'eq' and av and a.args[1] is not b.args[1]:
            return False
        return None
    if a.op == 'eq':
        if not av:
            return None
        if b.op == 'eq':
            return ca == cb
        return ca <= cb if b.args[2] else ca < cb
    # a is lt/le with value av:  L <(=) ca   or  L >(=) ca
    ale = a.args[2]
    if av:
        if b.op == 'lt':
            if ca < cb or (ca == cb and (b.args[2] or not ale)):
                return True
            return None
        # b eq
        if cb > ca or (cb == ca and not ale):
            return False
        return None
    # L >= ca (ale False)  or L > ca (ale True)
    if b.op == 'lt':
        if cb < ca or (cb == ca and (ale or not b.args[2])):
            return False
        return None
    if cb < ca or (cb == ca and ale):
        return False
    return None


def topatom(t):
    return t.args[0] if t.op == 'ite' else None


def mergeable(a, b):
    return True


_R = {}


class Asm:
    """interned assumption set {atom: bool}"""
    __slots__ = ('d', 'k', 'ext')
    tab = {}

    def __init__(self, d):
        self.d = d
        self.ext = {}
        self.k = None

    def items(self):
        return self.d.items()

    def get(self, a):
        return self.d.get(a)

    def __bool__(self):
        return bool(self.d)

    def plus(self, atom, val):
        if self.d.get(atom) is val:
            return self
        r = self.ext.get((atom, val))
        if r is None:
            d = dict(self.d)
            d[atom] = val
            r = Asm.of(d)
            self.ext[(atom, val)] = r
        return r

    def common(self, o):
        if o is self:
            return self
        return Asm.of({a: v for a, v in self.d.items() if o.d.get(a) is v})

    @staticmethod
    def of(d):
        fs = frozenset(d.items())
        r = Asm.tab.get(fs)
        if r is None:
            r = Asm(d)
            r.k = len(Asm.tab)
            Asm.tab[fs] = r
        return r


def assume(asm, c, val=True):
    """extend assumptions with condition c having truth val"""
    if c.op == 'not':
        return assume(asm, c.args[0], not val)
    if c.op == 'c':
        return asm
    if c.op == 'and' and val:
        for x in c.args[0]:
            asm = assume(asm, x, True)
        return asm
    if c.op == 'or' and not val:
        for x in c.args[0]:
            asm = assume(asm, x, False)
        return asm
    if c.op == 'ite':
        a, b = c.args[1], c.args[2]
        if val:
            if a is FALSE:
                asm = assume(asm, c.args[0], False)
                return assume(asm, b, True)
            if b is FALSE:
                asm = assume(asm, c.args[0], True)
                return assume(asm, a, True)
        else:
            if a is TRUE:
                asm = assume(asm, c.args[0], False)
                return assume(asm, b, False)
            if b is TRUE:
                asm = assume(asm, c.args[0], True)
                return assume(asm, a, False)
    return asm.plus(c, val)


def restrict(t, assume):
    """simplify decisions inside t under assumptions"""
    if not t.ite or not assume:
        return t
    key = (t, assume.k)
    r = _R.get(key)
    if r is not None:
        return r
    r = _restrict(t, assume)
    _R[key] = r
    return r


def _restrict(t, assume):
    if t.op in ATOMS:
        v = entail(t, assume)
        if v is not None:
            return const(v)
        # the arguments of an atom are left alone (the atom names a decision)
        return t
    if t.op == 'ite':
        c = t.args[0]
        v = entail(c, assume)
        if v is True:
            return restrict(t.args[1], assume)
        if v is False:
            return restrict(t.args[2], assume)
        a = restrict(t.args[1], assume)
        b = restrict(t.args[2], assume)
        if a is t.args[1] and b is t.args[2]:
            return t
        return ite(c, a, b)
    return rebuild(t, [restrict(a, assume) if isinstance(a, T) else
                       _rtup(a, assume) if isinstance(a, tuple) else a
                       for a in t.args])


def deep(t, assume):
    """like restrict(), also inside the operands of decisions"""
    if not assume or not t.ite and t.op not in ('band', 'bor', 'bxor'):
        return t
    key = (t, assume.k, 0)
    r = _R.get(key)
    if r is None:
        r = _R[key] = _deep(t, assume)
    return r


def _bitknown(t, assume):
    """set, clear or flip a bit whose present value is assumed"""
    x, n = t.args[:2]
    if isnum(n) is None:
        x, n = n, x
    k = isnum(n)
    if k is None or k.denominator != 1:
        return None
    k = int(k)
    bit = -k-1 if t.op == 'band' else k
    if bit <= 0 or bit & (bit-1):
        return None
    v = entail(eq(band(x, const(bit)), ZERO), assume)
    if v is None:
        return None
    if t.op == 'band':
        return x if v else None
    if t.op == 'bor':
        return None if v else x
    return bor(x, n) if v else band(x, const(-bit-1))


def _deep(t, assume):
    if t.op == 'ite':
        c = t.args[0]
        v = entail(c, assume)
        if v is None:
            c = deep(c, assume)
            v = bool(cval(c)) if c.op == 'c' else entail(c, assume)
        if v is not None:
            return deep(t.args[1 if v else 2], assume)
        a = deep(t.args[1], assume)
        b = deep(t.args[2], assume)
        if a is t.args[1] and b is t.args[2] and c is t.args[0]:
            return t
        return ite(c, a, b)
    if t.op in ATOMS:
        v = entail(t, assume)
        if v is not None:
            return const(v)
    if t.op in ('band', 'bor', 'bxor'):
        r = _bitknown(t, assume)
        if r is not None:
            return r
    return rebuild(t, [deep(a, assume) if isinstance(a, T) else
                       _dtup(a, assume) if isinstance(a, tuple) else a
                       for a in t.args])


def _dtup(a, assume):
    return tuple(deep(x, assume) if isinstance(x, T) else
                 _dtup(x, assume) if isinstance(x, tuple) else x for x in a)


def _rtup(a, assume):
    return tuple(restrict(x, assume) if isinstance(x, T) else
                 _rtup(x, assume) if isinstance(x, tuple) else x for x in a)


def _tupeq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_tupeq(x, y) for x, y in zip(a, b))
    return a is b if isinstance(a, T) else a == b


def rebuild(t, args):
    if all((x is y) if isinstance(x, T) else _tupeq(x, y)
           for x, y in zip(args, t.args)):
        return t
    op = t.op
    if op == 'poly':
        try:
            r = ZERO
            for m, c in args[0]:
                p = const(c)
                for a, e in m:
                    p = mul(p, powi(a, e))
                r = add(r, p)
            return _resign(r)
        except Big:
            return mk('poly', args[0])
    if op == 'ite':
        return ite(args[0], args[1], args[2])
    if op == 'eq':
        return eq(args[0], args[1])
    if op == 'lt':
        return lt(args[0], args[1], args[2])
    if op == 'not':
        return lnot(args[0])
    if op == 'and':
        return conj(*args[0])
    if op == 'or':
        return disj(*args[0])
    if op == 'bits':
        return bits(*args)
    if op == 'band':
        return band(*args)
    if op in ('bor', 'bxor'):
        return bor(args[0], args[1], op)
    if op == 'shr':
        return shr(*args)
    if op == 'floordiv':
        return floordiv(*args)
    if op == 'mod':
        return mod(*args)
    if op == 'pow2':
        return shl(ONE, args[0])
    if op == 'signed':
        return signed(*args)
    if op == 'inv':
        return inv(args[0])
    h = REBUILD.get(op)
    if h:
        return h(*args)
    return mk(op, *args)


REBUILD = {}


def bag(xs):
    """unordered alternatives"""
    xs = sorted(set(xs), key=lambda t: t.dg)
    return xs[0] if len(xs) == 1 else mk('bag', tuple(xs))


REBUILD['bag'] = bag


def topundef(v):
    if v.op == 'ite':
        return topundef(v.args[1]) or topundef(v.args[2])
    return v is UNDEF


def isdef(v):
    """the variable or key holding v has been assigned"""
    if v is UNDEF:
        return FALSE
    if v.op == 'ite':
        return ite(v.args[0], isdef(v.args[1]), isdef(v.args[2]))
    if v.op == 'phi' or v.op == 'rec':
        return mk('isdef', v)
    if v.op == 'mu':
        b = v.args[2][v.args[1]]
        if b.op == 'tuple' and topundef(b.args[0][0]):
            return mk('isdef', v)
    return TRUE


REBUILD['isdef'] = isdef


def subst(t, m, memo=None):
    """replace terms (keys of m) bottom-up"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if t.op in ('c', 'sym', 'obj', 'func', 'cls', 'ext'):
            r = t
        else:
            r = rebuild(t, [subst(a, m, memo) if isinstance(a, T) else
                            _stup(a, m, memo) if isinstance(a, tuple) else a
                            for a in t.args])
    memo[t] = r
    return r


def _stup(a, m, memo):
    return tuple(subst(x, m, memo) if isinstance(x, T) else
                 _stup(x, m, memo) if isinstance(x, tuple) else x for x in a)


def leaves(t, pred, out=None, seen=None):
    """all subterms satisfying pred"""
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for a in t.args:
        _lv(a, pred, out, seen)
    return out


def _lv(a, pred, out, seen):
    if isinstance(a, T):
        leaves(a, pred, out, seen)
    elif isinstance(a, tuple):
        for x in a:
            _lv(x, pred, out, seen)


def contains(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if pred(x):
                return True
            st.extend(x.args)
    return False


def _bitpair(c, a, b):
    """ite(topbit==0, k*u, k*s) -> k*s for the same field"""
    # c is eq(bits(buf,off,1,u),0)
    if c.op != 'eq' or c.args[0].op != 'bits' or isnum(c.args[1]) != 0:
        return None
    cb = c.args[0]
    if isnum(cb.args[2]) != 1:
        return None
    pa, pb = pget(a), pget(b)
    if len(pa) != 1 or len(pb) != 1:
        return None
    (ma, ka), = pa.items()
    (mb, kb), = pb.items()
    if ka != kb or len(ma) != 1 or len(mb) != 1:
        return None
    xa, xb = ma[0][0], mb[0][0]
    if ma[0][1] != 1 or mb[0][1] != 1 or xa.op != 'bits' or xb.op != 'bits':
        return None
    if xa.args[:3] != xb.args[:3] or xa.args[0] is not cb.args[0] or \
            xa.args[1] is not cb.args[1]:
        return None
    if not xa.args[3] and xb.args[3]:
        return b
    return None


def _abspair(x, a, b):
    """x < 0 ? a : b with a = -b = k*x  ->  +-|k*x|"""
    if a.op in NONNUM or b.op in NONNUM or a.op == 'ite' or b.op == 'ite':
        return None
    if a.op == 'c' or b.op == 'c' or neg(a) is not b:
        return None
    pb, px = pget(b), pget(x)
    if len(pb) != len(px):
        return None
    m = next(iter(px))
    if m not in pb:
        return None
    k = pb[m]/px[m]
    if scale(x, k) is not b:
        return None
    lead = b
    if b.op == 'poly' and b.args[0][0][1] < 0:
        lead = a
    r = mk('call', 'abs', (lead,))
    return r if k > 0 else neg(r)


def ite(c, a, b):
    """decision on condition c (any boolean term)"""
    if a is b:
        return a
    if c.op == 'c':
        return a if cval(c) else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'and':
        xs = c.args[0]
        rest = xs[1:]
        r = mk('and', rest) if len(rest) > 1 else rest[0]
        return ite(xs[0], ite(r, a, b), b)
    if c.op == 'or':
        xs = c.args[0]
        rest = xs[1:]
        r = mk('or', rest) if len(rest) > 1 else rest[0]
        return ite(xs[0], a, ite(r, a, b))
    if c.op == 'ite':
        c0, ca, cb = c.args
        return ite(c0, ite(ca, a, b), ite(cb, a, b))
    return _node(c, a, b)


def _node(c, a, b):
    k = (c, a, b)
    r = _M.get(k)
    if r is None:
        r = _M[k] = _node1(c, a, b)
    return r


def _node1(c, a, b):
    """c atom; keep decision variables ordered by digest"""
    a = _assume1(a, c, True)
    b = _assume1(b, c, False)
    if a is b:
        return a
    p = _bitpair(c, a, b)
    if p is not None:
        return p
    if c.op == 'lt' and isnum(c.args[1]) == 0:
        p = _abspair(c.args[0], a, b)
        if p is not None:
            return p
    # boolean results
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    ta, tb = topatom(a), topatom(b)
    v = c
    for x in (ta, tb):
        if x is not None and x.dg < v.dg:
            v = x
    if v is c:
        return mk('ite', c, a, b)
    a1, a0 = _cof(a, v, True), _cof(a, v, False)
    b1, b0 = _cof(b, v, True), _cof(b, v, False)
    c1, c0 = entail(c, {v: True}), entail(c, {v: False})
    hi = (a1 if c1 else b1) if c1 is not None else _node(c, a1, b1)
    lo = (a0 if c0 else b0) if c0 is not None else _node(c, a0, b0)
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if hi is FALSE and lo is TRUE:
        return lnot(v)
    return mk('ite', v, hi, lo)


def _cof(t, v, val):
    if t.op == 'ite' and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return _assume1(t, v, val)


def _assume1(t, c, val):
    if t.op != 'ite':
        if t.op in ATOMS:
            e = entail(t, {c: val})
            if e is not None:
                return const(e)
        return t
    k = (t, c, val)
    r = _M.get(k)
    if r is None:
        r = _M[k] = _assume2(t, c, val)
    return r


def _assume2(t, c, val):
    """top-level decisions only"""
    if t.op == 'ite':
        e = entail(t.args[0], {c: val})
        if e is not None:
            return _assume1(t.args[1] if e else t.args[2], c, val)
        x = _assume1(t.args[1], c, val)
        y = _assume1(t.args[2], c, val)
        if x is t.args[1] and y is t.args[2]:
            return t
        if x is y:
            return x
        return mk('ite', t.args[0], x, y)
    if t.op in ATOMS:
        e = entail(t, {c: val})
        if e is not None:
            return const(e)
    return t


def _topbit(c):
    """(buffer, offset, v): the decision means that this bit is zero (v true)
    or one (v false)"""
    if c.op == 'not':
        r = _topbit(c.args[0])
        return r and (r[0], r[1], not r[2])
    if c.op == 'eq' and c.args[0].op == 'bits':
        b, n = c.args[0], isnum(c.args[1])
        if isnum(b.args[2]) == 1 and n in (0, 1):
            return b.args[0], b.args[1], n == 0
    if c.op == 'lt':
        n = isnum(c.args[1])
        if n is None or n <= 0:
            return None
        top, ktop, rest = None, 0, Fraction(0)
        for m, k in pget(c.args[0]).items():
            if len(m) != 1 or m[0][1] != 1 or k <= 0 or \
                    m[0][0].op != 'bits' or bmask(m[0][0]) is None:
                return None
            if k > ktop:
                top, ktop = m[0][0], k
        if top is None:
            return None
        for m, k in pget(c.args[0]).items():
            if m[0][0] is not top:
                rest += k*bmask(m[0][0])
        if rest < ktop and n == ktop * (1 << int(isnum(top.args[2]))-1):
            return top.args[0], top.args[1], True
    return None


def signext(v, w):
    """the w-bit value v read as two's complement, when the field holding its
    top bit is at hand"""
    for m, k in pget(v).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bits' and \
                not m[0][0].args[3]:
            u = m[0][0]
            n = isnum(u.args[2])
            if n is not None and k*(1 << int(n)) == 1 << w:
                return add(v, scale(sub(bits(u.args[0], u.args[1],
                                             u.args[2], True), u), k))
    return None


def signed(v, w, depth=4):
    """low w bits of v in two's complement"""
    n, x = isnum(w), isnum(v)
    if v.op == 'bits' and v.args[2] is w and not v.args[3]:
        return bits(v.args[0], v.args[1], w, True)
    if x is not None and n is not None:
        x = int(x)
        return const(x - (1 << int(n)) if x >> (int(n)-1) & 1 else x)
    if n is not None:
        r = signext(v, int(n))
        if r is not None:
            return r
        if depth and v.ite:
            g = None
            for m in ([((v, 1),)] if v.op == 'ite' else pget(v)):
                for a, _ in m:
                    if a.op == 'ite':
                        g = a.args[0]
            if g is not None:
                p, q = (restrict(v, assume(Asm.of({}), g, t))
                        for t in (True, False))
                if p is not v and q is not v:
                    return ite(g, signed(p, w, depth-1),
                               signed(q, w, depth-1))
    return mk('signed', v, w)


def _signed(c, a, b):
    """value with the weight of its top bit made negative by hand"""
    d = isnum(sub(b, a))
    if not d:
        return None
    t = _topbit(c)
    if t is None:
        return None
    if not t[2]:
        a, b, d = b, a, -d
    if d >= 0:
        return None
    for m, k in pget(a).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bits':
            u = m[0][0]
            n = isnum(u.args[2])
            if n is not None and not u.args[3] and u.args[0] is t[0] and \
                    u.args[1] is t[1] and d == -k*(1 << int(n)):
                return add(a, scale(sub(bits(u.args[0], u.args[1],
                                             u.args[2], True), u), k))
    return None


def _resign(t):
    """u + k*(0 or -2^w by the top bit of u): the signed field"""
    if t.op != 'poly' or not t.ite:
        return t
    for m, k in t.args[0]:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'ite':
            continue
        c, p, q = m[0][0].args
        x, y = isnum(p), isnum(q)
        if x is None or y is None:
            continue
        rest = sub(t, scale(m[0][0], k))
        r = _signed(c, add(rest, const(x*k)), add(rest, const(y*k)))
        if r is not None:
            return _resign(r)
    return t


def merge(c, a, b):
    """value at a join: a when c holds, else b"""
    if a is b:
        return a
    if c.op == 'c':
        return a if cval(c) else b
    if (a.op == 'bits' or a.op == 'poly') and (b.op == 'poly' or
                                               b.op == 'bits'):
        r = _signed(c, a, b)
        if r is not None:
            return r
    if (a.op == 'poly' or b.op == 'poly') and maybenum(a) and maybenum(b) \
            and a.op != 'ite' and b.op != 'ite':
        pa, pb = pget(a), pget(b)
        com = {m: k for m, k in pa.items() if pb.get(m) == k}
        if com:
            ra = pmake({m: k for m, k in pa.items() if m not in com})
            rb = pmake({m: k for m, k in pb.items() if m not in com})
            return add(pmake(com), ite(c, ra, rb))
    return ite(c, a, b)


# ------------------------------------------------------------------ printing

def _prec(s):
    return '(' + s + ')'


def pp(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(pp(x) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if t._s is None:
        t._s = _pp(t) if t.sz < 3000 else _ppcut(t)
    return t._s


def _ppcut(t):
    if t.op == 'ite':
        return 'if(%s ? %s : %s)' % tuple(
            pp(x) if x.sz < 1000 else '#' + x.dg for x in t.args)
    return '%s#%s' % (t.op, t.dg)


def _pp(t):
    op, a = t.op, t.args
    if op == 'c':
        v = a[0]
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            return num_s(Fraction(v))
        return repr(v)
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return pp(a[0]) + '.' + a[1]
    if op == 'idx':
        return pp(a[0]) + '[' + pp(a[1]) + ']'
    if op == 'slice':
        return '%s[%s:%s%s]' % (pp(a[0]), _o(a[1]), _o(a[2]),
                                '' if a[3] is NONE else ':' + pp(a[3]))
    if op == 'bits':
        return '%s<%s>@%s:%s' % ('s' if a[3] else 'u', pp(a[2]), pp(a[0]),
                                 pp(a[1]))
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = []
            for x, p in m:
                s = pp(x)
                if x.op in ('poly', 'and', 'or'):
                    s = '(' + s + ')'
                f.append(s if p == 1 else '%s^%s' % (s, p))
            cs = num_s(c)
            if not f:
                out.append(cs)
            elif cs == '1':
                out.append('*'.join(f))
            else:
                out.append(cs + '*' + '*'.join(f))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        return 'if(%s ? %s : %s)' % (pp(a[0]), pp(a[1]), pp(a[2]))
    if op == 'eq':
        return '%s==%s' % (pp(a[0]), pp(a[1]))
    if op == 'lt':
        return '%s%s%s' % (pp(a[0]), '<=' if a[2] else '<', pp(a[1]))
    if op == 'not':
        x = a[0]
        if x.op == 'eq':
            return '%s!=%s' % (pp(x.args[0]), pp(x.args[1]))
        if x.op == 'lt':
            return '%s%s%s' % (pp(x.args[0]), '>' if x.args[2] else '>=',
                               pp(x.args[1]))
        return '!(%s)' % pp(x)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(
            pp(x) for x in a[0]) + ')'
    if op == 'tuple':
        return '(' + ', '.join(pp(x) for x in a[0]) + ')'
    if op == 'dict':
        return '{' + ', '.join(pp(k) + ':' + pp(v) for k, v in a[0]) + '}'
    if op == 'call':
        s = [pp(x) for x in a[1]] if isinstance(a[1], tuple) else [pp(a[1])]
        if len(a) > 2:
            s += ['%s=%s' % (k[0], pp(k[1])) if isinstance(k, tuple)
                  and len(k) == 2 else pp(k) for k in a[2]] \
                if isinstance(a[2], tuple) else [pp(a[2])]
        return '%s(%s)' % (a[0], ', '.join(s))
    if op == 'obj':
        return '<%s>' % (a[1],)
    if op in ('func', 'cls', 'ext'):
        return '<%s %s>' % (op, a[0] if isinstance(a[0], str) else a[-1])
    return '%s(%s)' % (op, ', '.join(pp(x) for x in a))


def _o(t):
    return '' if t is NONE else pp(t)


NONE = TRUE = FALSE = UNDEF = ZERO = ONE = NAN = ELLIPSIS = None
reset()
