"""Models of builtins, numpy, bitstruct and container/string methods."""
import re
import ast
from fractions import Fraction
from . import terms as X
from .terms import T, mk, const, isnum


def tup(*a):
    return mk('tuple', tuple(a))


IGN = ('print', 'logging', 'warnings', 'plt')
PURE = {}


def scalarfn(nm, x):
    """unary function of a term with a few identities"""
    n = isnum(x)
    if nm == 'abs':
        if n is not None:
            return const(abs(n))
        if x.op in ('bits',) and not x.args[3]:
            return x
        pos = x
        if x.op == 'poly':
            lead = x.args[0][0][1]
            if lead < 0:
                pos = X.neg(x)
        return mk('call', 'abs', (pos,))
    if nm == 'sqrt':
        if n is not None and n >= 0:
            import math
            r = math.isqrt(int(n)) if n.denominator == 1 else None
            if r is not None and r*r == n:
                return const(r)
        if x.op == 'matmul' and x.args[0] is x.args[1]:
            return mk('call', 'norm', (x.args[0],))
        if x.op == 'call' and x.args[0] == 'sum' and len(x.args) == 2 and \
                len(x.args[1]) == 1:
            p = X.pget(x.args[1][0])
            if len(p) == 1:
                (m, k), = p.items()
                if k == 1 and len(m) == 1 and m[0][1] == 2:
                    return mk('call', 'norm', (m[0][0],))
        return mk('pow', x, const(Fraction(1, 2)))
    if nm == 'deg2rad':
        return X.mul(x, X.mul(mk('sym', 'pi'), const(Fraction(1, 180))))
    if nm == 'rad2deg':
        return X.mul(x, X.div(const(180), mk('sym', 'pi')))
    if nm == 'square':
        return X.mul(x, x)
    if nm in ('floor', 'ceil'):
        if n is not None:
            import math
            return const(math.floor(n) if nm == 'floor' else math.ceil(n))
        if X.isint(x):
            return x
        if nm == 'floor':
            return mk('floordiv', x, X.ONE)
    if nm == 'int':
        if n is not None:
            return const(int(n))
        if X.isint(x):
            return x
        if x.op == 'floordiv':
            return x
        if x.op in X.ATOMS + ('not', 'and', 'or'):
            return X.ite(x, X.ONE, X.ZERO)
        return mk('int', x)
    if nm == 'float':
        if n is not None:
            return const(n)
        if x.op in ('bits', 'poly', 'lv', 'int'):
            return x
        return mk('call', 'float', (x,))
    if nm in ('sin', 'tan', 'arctan', 'arcsin', 'sign') and x.op == 'poly' \
            and x.args[0][0][1] < 0:
        return X.neg(mk('call', nm, (X.neg(x),)))
    if nm in ('cos',) and x.op == 'poly' and x.args[0][0][1] < 0:
        return mk('call', nm, (X.neg(x),))
    if n == 0 and nm in ('sin', 'tan', 'arctan', 'arcsin'):
        return X.ZERO
    if n == 0 and nm == 'cos':
        return X.ONE
    return mk('call', nm, (x,))


def elementwise(en, nm, x, st):
    m = en.meta.get(x)
    if m is not None and m['kind'] in ('arr', 'list'):
        c = en.content(x, st)
        v = c.args[0] if c.op == 'tuple' else (
            en.small(x, st) if m['kind'] == 'arr' else None)
        if v is not None:
            return en.newlist(st, [elementwise(en, nm, y, st) for y in v],
                              'arr')
    x = en.snap(x, st)
    if x.op == 'ite' and nm in ('int', 'float', 'abs', 'floor'):
        return X.ite(x.args[0], elementwise(en, nm, x.args[1], st),
                     elementwise(en, nm, x.args[2], st))
    return scalarfn(nm, x)


UNARY = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'exp',
         'log', 'log10', 'floor', 'ceil', 'abs', 'deg2rad', 'rad2deg', 'sign',
         'isnan', 'isinf', 'square'}


def call(en, name, args, kw, st, e):
    from .engine import CANON
    if name.startswith('builtins.'):
        name = name[9:]
    nm = CANON.get(name, name)
    h = FN.get(nm)
    if h is not None:
        r = h(en, args, kw, st)
        if r is not None:
            return r
    if nm in UNARY and len(args) == 1 and not kw:
        return elementwise(en, nm, args[0], st)
    if nm.split('.')[0] in IGN or nm in IGN:
        return X.NONE
    vals = [en.snap(a, st) for a in args]
    kws = tuple(sorted((k, en.snap(v, st)) for k, v in kw.items()))
    en.ev('ext', st, nm, tuple(vals))
    t = mk('call', nm, tuple(vals), tuple(tup(const(k), v)
                                          for k, v in kws)) if kws else \
        mk('call', nm, tuple(vals))
    en.extcalls.append(t)
    return t


def x_len(en, a, kw, st):
    x = a[0]
    c = en.content(x, st)
    m = en.meta.get(x)
    if m is not None and m['kind'] == 'arr' and m.get('dims'):
        return m['dims'][0]
    if m is not None and m['kind'] == 'dict':
        ks = en.dict_keys(x, st)
        if ks is not None:
            return const(len(ks))
        return mk('len', en.snap(x, st))
    if m is not None and m.get('base') is not None and c is x:
        return x_len(en, [m['base']], kw, st)
    if c.op == 'keys':
        return x_len(en, [c.args[0]], kw, st)
    return en.t_len(en.snap(c, st) if c.op != 'tuple' else c)


def x_range(en, a, kw, st):
    a = [x if x.op != 'idx' else en.snap(x, st) for x in a]
    if len(a) == 1:
        return mk('range', X.ZERO, a[0], X.ONE)
    if len(a) == 2:
        return mk('range', a[0], a[1], X.ONE)
    return mk('range', a[0], a[1], a[2])


def x_enumerate(en, a, kw, st):
    off = a[1] if len(a) > 1 else kw.get('start', X.ZERO)
    return mk('enum', a[0], off)


def x_zip(en, a, kw, st):
    return mk('zip', tuple(a))


def x_int(en, a, kw, st):
    if len(a) == 1:
        x = a[0]
        if x.op == 'c' and isinstance(X.cval(x), str):
            try:
                return const(int(X.cval(x)))
            except ValueError:
                return None
        if en.isstr(x) or x.op in ('slice', 'line'):
            return mk('int', en.snap(x, st))
        return elementwise(en, 'int', x, st)
    return mk('call', 'int', tuple(en.snap(x, st) for x in a))


def x_float(en, a, kw, st):
    x = a[0]
    if x.op == 'c' and isinstance(X.cval(x), str):
        s = X.cval(x)
        if s == 'nan':
            return X.NAN
        try:
            return const(float(s))
        except ValueError:
            return None
    return scalarfn('float', en.snap(x, st))


def x_str(en, a, kw, st):
    if not a:
        return const('')
    x = a[0]
    if en.isstr(x):
        return x
    return en.fmt(x, '', st) if x.op == 'c' or X.isint(x) else \
        mk('fmt', en.snap(x, st), '')


def x_bool(en, a, kw, st):
    return X.truth(en.truthval(a[0], st))


def copyof(en, x, st, kind=None):
    m = en.meta.get(x)
    if m is not None:
        l = en.getmem(st, x, '$l')
        if l is not None or m['kind'] in ('dict', 'arr'):
            o = en.new(kind or m['kind'], kind or m['kind'],
                       **{k: v for k, v in m.items() if k != 'kind'})
            if l is not None:
                el = l
                if l.op == 'tuple':
                    el = mk('tuple', tuple(
                        copyof(en, y, st) if en.kind(y) in ('arr', 'list')
                        and kind == 'arr' else y for y in l.args[0]))
                st.mem[(o, '$l')] = el
            stv = en.getmem(st, x, '$st')
            if stv is not None:
                st.mem[(o, '$st')] = stv
            return o
        o = en.new('inst', x.args[1], **{k: v for k, v in m.items()
                                         if k != 'kind'})
        st.mem[(o, '$new')] = X.TRUE
        for (b, f), v in list(st.mem.items()):
            if b is x and f != '$new':
                st.mem[(o, f)] = v
        for (b, f), v in list(en.smem.items()):
            if b is x and (o, f) not in st.mem:
                st.mem[(o, f)] = v
        return o
    if x.op in ('c', 'bits', 'poly', 'tuple', 'func', 'cls') or \
            en.isscalar(x):
        return x
    if x.op == 'ite':
        return X.ite(x.args[0], copyof(en, x.args[1], st, kind),
                     copyof(en, x.args[2], st, kind))
    k = kind or ('inst' if en.type_of(x) else 'arr')
    root, p = en.rootpath(x)
    base = en.snap(x, st)
    o = en.new(k, 'copy', base=base, cls=en.type_of(x), nd=None)
    st.mem[(o, '$new')] = X.TRUE
    if k != 'inst':
        # carry over element stores under x
        sub = tuple((q[len(p):], v) for q, v in
                    (en.getmem(st, root, '$st') or ())
                    if len(q) > len(p) and q[:len(p)] == p)
        st.mem[(o, '$st')] = sub
    for (b, f), v in list(st.mem.items()):
        if b is x and not f.startswith('$'):
            st.mem[(o, f)] = v
    return o


def x_list(en, a, kw, st):
    if not a:
        return en.newlist(st, [])
    x = a[0]
    n, elem, known = en.iteration(x, st)
    if known is not None:
        return en.newlist(st, known)
    c = en.content(x, st)
    o = en.new('list', 'list')
    if x.op == 'keys':
        c = mk('keys', en.snap(x.args[0], st))
    st.mem[(o, '$l')] = en.snap(c, st)
    return o


def x_tuple(en, a, kw, st):
    if not a:
        return mk('tuple', ())
    n, elem, known = en.iteration(a[0], st)
    if known is not None:
        return mk('tuple', tuple(known))
    return en.snap(en.content(a[0], st), st)


def x_set(en, a, kw, st):
    if not a:
        return en.newlist(st, [])
    return mk('call', 'set', (en.snap(a[0], st),))


def x_dict(en, a, kw, st):
    if a:
        return copyof(en, a[0], st)
    o = en.new('dict', 'dict')
    st.mem[(o, '$st')] = tuple(((const(k),), v) for k, v in kw.items())
    return o


def x_minmax(nm):
    def f(en, a, kw, st):
        if kw:
            return None
        xs = a
        if len(a) == 1:
            c = en.content(a[0], st)
            if c.op != 'tuple':
                return mk('call', nm, (en.snap(c, st),))
            xs = list(c.args[0])
        ns = [isnum(x) for x in xs]
        if all(n is not None for n in ns):
            return const(min(ns) if nm == 'min' else max(ns))
        xs = sorted({en.snap(x, st) for x in xs}, key=lambda t: t.dg)
        if len(xs) == 1:
            return xs[0]
        if len(xs) == 2:
            u, v = xs
            c = X.lt(u, v)
            return X.merge(c, u, v) if nm == 'min' else X.merge(c, v, u)
        return mk('call', nm, tuple(xs))
    return f


def x_sum(en, a, kw, st):
    c = en.content(a[0], st)
    if c.op == 'tuple' and len(c.args[0]) <= 64 and len(a) == 1:
        r = X.ZERO
        for x in c.args[0]:
            r = X.add(r, en.num(en.snap(x, st)))
        return r
    return mk('call', 'sum', tuple(en.snap(x, st) for x in a))


def x_abs(en, a, kw, st):
    return elementwise(en, 'abs', a[0], st)


def x_round(en, a, kw, st):
    n = isnum(a[0])
    if n is not None and len(a) == 1:
        return const(round(n))
    return mk('call', 'round', tuple(en.snap(x, st) for x in a))


def x_pow(en, a, kw, st):
    import ast
    return en.binop(ast.Pow(), a[0], a[1], st)


def arith2(opname):
    def f(en, a, kw, st):
        import ast
        return en.binop(getattr(ast, opname)(), a[0], a[1], st)
    return f


def x_isinstance(en, a, kw, st):
    x, c = a
    cs = c.args[0] if c.op == 'tuple' else (c,)
    cls = en.type_of(x)
    if cls is not None:
        q = [t for t in cs if t.op == 'cls']
        r = any(en.p.classes[t.args[0]] in cls.mro for t in q)
        return const(r)
    names = {t.args[0].split('.')[-1] for t in cs if t.op in ('ext', 'cls')}
    if x.op == 'c':
        v = X.cval(x)
        tn = {'int': (int,), 'str': (str,), 'float': (float, Fraction)}
        ok = False
        for n in names:
            if n in tn and isinstance(v, tn[n]) and not isinstance(v, bool):
                ok = True
        if names & set(tn):
            return const(ok)
    if x.op == 'bits':
        return const('int' in names)
    if x in en.meta:
        k = en.meta[x]['kind']
        return const({'list': 'list', 'dict': 'dict',
                      'arr': 'ndarray'}.get(k) in names)
    return X.lnot(X.eq(mk('isinst', x, tuple(sorted(names))), X.ZERO))


def x_identity(en, a, kw, st):
    return a[0]


def x_bytes(en, a, kw, st):
    if not a:
        return en.newlist(st, [])
    x = a[0]
    n = isnum(x)
    if n is not None or X.isint(x) and x.op != 'call':
        return x_bytearray(en, a, kw, st)
    m = en.meta.get(x)
    if m is not None and m['kind'] in ('arr', 'buf'):
        return x
    if m is not None:
        c = en.content(x, st)
        if c.op == 'tuple':
            return mk('bytes', tuple(c.args[0]))
        return c
    return x


def x_bytearray(en, a, kw, st):
    if a and (isnum(a[0]) is not None or a[0].op in ('poly', 'len', 'lv') or
              X.isint(a[0])):
        o = en.new('arr', 'buf', fill=X.ZERO, nd=1, dims=(a[0],), buf=True)
        st.mem[(o, '$st')] = ()
        return o
    if not a:
        o = en.new('list', 'list')
        st.mem[(o, '$l')] = mk('tuple', ())
        return o
    return copyof(en, a[0], st) if en.kind(a[0]) == 'arr' else \
        x_bytes(en, a, kw, st)


def dims_of(en, s, st):
    c = en.content(s, st)
    if c.op == 'tuple':
        return tuple(c.args[0])
    return (s,)


def x_full(fill):
    def f(en, a, kw, st):
        s = a[0] if a else kw.get('shape', X.ONE)
        d = dims_of(en, s, st)
        fv = fill
        if fill == 'arg':
            fv = a[1]
        o = en.new('arr', 'arr', fill=fv, nd=len(d), dims=d,
                   shape=mk('tuple', d))
        st.mem[(o, '$st')] = ()
        return o
    return f


def x_fulllike(fill):
    def f(en, a, kw, st):
        c = en.content(a[0], st)
        if c.op == 'tuple':
            return en.newlist(st, [fill]*len(c.args[0]), 'arr')
        m = en.meta.get(a[0])
        d = m.get('dims') if m else None
        o = en.new('arr', 'arr', fill=fill, nd=len(d) if d else 1,
                   dims=d, shape=mk('tuple', d) if d else None)
        st.mem[(o, '$st')] = ()
        return o
    return f


def x_array(en, a, kw, st):
    if not a:
        en.ev('arity', st, 'np.array')
        return mk('call', 'np.array', ())
    x = a[0]
    m = en.meta.get(x)
    if m is not None:
        return copyof(en, x, st, 'arr')
    if x.op == 'tuple':
        return en.newlist(st, [copyof(en, y, st, 'arr')
                               if en.kind(y) in ('list', 'arr') or
                               y.op == 'tuple' and False else y
                               for y in x.args[0]], 'arr')
    if x.op == 'range':
        n, e, known = en.iteration(x, st)
        if known is not None:
            return en.newlist(st, known, 'arr')
    if x.op in ('comp', 'concat', 'acc'):
        o = en.new('arr', 'arr')
        st.mem[(o, '$l')] = x
        return o
    return copyof(en, x, st, 'arr')


def x_asarray(en, a, kw, st):
    m = en.meta.get(a[0])
    if m is not None and m['kind'] == 'list':
        return copyof(en, a[0], st, 'arr')
    return a[0]


def x_arange(en, a, kw, st):
    r = x_range(en, a, kw, st)
    n, e, known = en.iteration(r, st)
    if known is not None:
        return en.newlist(st, known, 'arr')
    o = en.new('arr', 'arr')
    lv = mk('lv', n, 90)
    st.mem[(o, '$l')] = mk('comp', n, e(lv, st), X.TRUE, lv)
    return o


def x_append(en, a, kw, st):
    x, y = en.content(a[0], st), a[1]
    if x in en.meta:
        x = en.snap(x, st)
    c = en.content(y, st)
    if c.op == 'tuple' or c.op in ('comp', 'concat', 'acc'):
        yy = c
    elif en.isscalar(y) or True:
        yy = mk('tuple', (y,))
    o = en.new('arr', 'arr')
    st.mem[(o, '$l')] = en.concat(x, yy)
    return o


def x_norm(en, a, kw, st):
    if len(a) > 1 or kw:
        return None
    c = en.content(a[0], st)
    if c.op == 'tuple' and 1 < len(c.args[0]) < 4 and not any(
            x.op in X.NONNUM or x.op == 'ite' or en.kind(x) == 'arr'
            for x in c.args[0]):
        s = X.ZERO
        for x in c.args[0]:
            s = X.add(s, X.mul(x, x))
        return elementwise(en, 'sqrt', s, st)
    return mk('call', 'norm', (en.snap(a[0], st),))


def x_dot(en, a, kw, st):
    return en.matmul(a[0], a[1], st)


def x_matmul(en, a, kw, st):
    return en.matmul(a[0], a[1], st)


def x_isnan(en, a, kw, st):
    x = en.snap(a[0], st)
    if x is X.NAN:
        return X.TRUE
    if en.isscalar(x):
        return X.FALSE
    return X.lnot(X.eq(mk('call', 'isnan', (x,)), X.ZERO))


def x_mod(en, a, kw, st):
    import ast
    return en.binop(ast.Mod(), a[0], a[1], st)


def x_divmod(en, a, kw, st):
    import ast
    return tup(en.binop(ast.FloorDiv(), a[0], a[1], st),
               en.binop(ast.Mod(), a[0], a[1], st))


def x_copy(en, a, kw, st):
    return copyof(en, a[0], st)


def x_super(en, a, kw, st):
    fr = en.frames[-1]
    t = mk('super', fr.fn.cls.qual, fr.selft)
    en.superinfo[t] = (fr.fn.cls, fr.selft)
    return t


def x_open(en, a, kw, st):
    t = mk('call', 'open', tuple(en.snap(x, st) for x in a))
    return t


def x_exit(en, a, kw, st):
    return mk('exit', tuple(a))


def x_map(en, a, kw, st):
    n, elem, known = en.iteration(a[1], st)
    if known is not None:
        return mk('tuple', tuple(en.call(a[0], [x], {}, st) for x in known))
    return mk('call', 'map', tuple(en.snap(x, st) for x in a))


def x_reversed(en, a, kw, st):
    n, elem, known = en.iteration(a[0], st)
    if known is not None:
        return mk('tuple', tuple(reversed(known)))
    return mk('call', 'reversed', (en.snap(a[0], st),))


def x_sorted(en, a, kw, st):
    c = en.content(a[0], st)
    if c.op == 'tuple' and all(isnum(x) is not None for x in c.args[0]) \
            and not kw:
        return en.newlist(st, sorted(c.args[0], key=isnum))
    if a[0].op == 'keys':
        return mk('call', 'sorted', (mk('keys', en.snap(a[0].args[0], st)),))
    return mk('call', 'sorted', (en.snap(c, st),))


def x_hasattr(en, a, kw, st):
    return X.lnot(X.eq(mk('hasattr', en.snap(a[0], st), a[1]), X.ZERO))


def x_getattr(en, a, kw, st):
    if a[1].op == 'c':
        return en.getattr(a[0], X.cval(a[1]), st)
    return None


def x_setattr(en, a, kw, st):
    if a[1].op == 'c':
        en.setattr(a[0], X.cval(a[1]), a[2], st)
        return X.NONE
    return None


def x_anyall(nm):
    def f(en, a, kw, st):
        x = a[0]
        c = en.content(x, st)
        if c.op == 'tuple' and len(a) == 1:
            cs = [X.truth(y) for y in c.args[0]]
            return X.disj(*cs) if nm == 'any' else X.conj(*cs)
        return None
    return f


def x_diff(en, a, kw, st):
    return None


def x_zerosn(en, a, kw, st):
    return None


# ------------------------------------------------------------------ bitstruct

_F = re.compile(r'([a-zA-Z])(\d*)')


def parsefmt(en, f):
    """format term -> list of (letter, width term) or ('rep', n, items)"""
    parts = list(f.args[0]) if f.op == 'strcat' else [f]
    out = []
    pend = None

    def flush(width):
        nonlocal pend
        out.append((pend, width))
        pend = None

    def lit(s):
        nonlocal pend
        pos = 0
        s = s.replace(' ', '')
        while pos < len(s):
            if s[pos] in '<>':
                pos += 1
                continue
            m = _F.match(s, pos)
            if not m:
                return False
            pos = m.end()
            if m.group(2) == '':
                pend = m.group(1)
                if pos != len(s):
                    return False
            else:
                out.append((m.group(1), const(int(m.group(2)))))
        return True
    for p in parts:
        if p.op == 'c' and isinstance(X.cval(p), str):
            if pend is not None:
                if not X.cval(p)[:1].isdigit():
                    return None
                return None
            if not lit(X.cval(p)):
                return None
        elif p.op == 'fmt' and p.args[1] in ('', 'd'):
            if pend is None:
                return None
            flush(p.args[0])
        elif p.op == 'strrep':
            sub = parsefmt(en, p.args[0])
            if sub is None or pend is not None:
                return None
            out.append(('rep', p.args[1], sub))
        elif p.op == 'ite':
            return None
        else:
            if pend is None:
                return None
            flush(p)
    if pend is not None:
        return None
    return out


def fld(en, letter, buf, off, w, st):
    if letter in ('u', 's'):
        v = readbits(en, buf, off, w, letter == 's', st)
        return v
    if letter == 'b':
        return X.truth(readbits(en, buf, off, w, False, st))
    if letter in ('p', 'P'):
        return None
    return mk('field', letter, buf, off, w)


def tosigned(v, w):
    return X.signed(v, w)


def bufnorm(en, buf, off, st):
    """slices of a buffer become offsets"""
    while True:
        if buf.op == 'slice' and buf.args[3] is X.NONE and \
                (buf.args[1] is X.NONE or X.nonneg(buf.args[1])):
            lo = buf.args[1]
            if lo is not X.NONE:
                off = X.add(off, X.scale(lo, 8))
            buf = buf.args[0]
            continue
        return buf, off


def readbits(en, buf, off, w, signed, st):
    buf, off = bufnorm(en, buf, off, st)
    m = en.meta.get(buf)
    if m is not None or en.getmem(st, en.rootpath(buf)[0], '$st'):
        v = readbuf(en, buf, off, w, st)
        if v is not None:
            return tosigned(v, w) if signed else v
        b = en.snap(buf, st)
        return X.bits(b, off, w, signed)
    if buf.op == 'pack':
        v = readpack(en, buf, off, w)
        if v is not None:
            return tosigned(v, w) if signed else v
    if buf.op == 'ite':
        return X.merge(buf.args[0],
                       readbits(en, buf.args[1], off, w, signed, st),
                       readbits(en, buf.args[2], off, w, signed, st))
    r = X.bits(buf, off, w, signed)
    if en.record:
        en.ev('bits', st, buf, off, w, const(signed))
    for pat, val in en.entry_sub:
        if r is pat:
            return val
    return r


def readpack(en, buf, off, w):
    n, k = isnum(off), isnum(w)
    if n is None or k is None:
        return None
    n, k = int(n), int(k)
    pos = 0
    acc = X.ZERO
    got = 0
    for ww, v in buf.args[0]:
        q = isnum(ww)
        if q is None:
            return None
        q = int(q)
        a, b = pos, pos+q
        pos = b
        if b <= n or a >= n+k:
            continue
        if a < n or b > n+k:
            r = X._splitlow(v, b-(n+k)) if b > n+k else None
            if a < n:
                if b > n+k:
                    return None
                r2 = X._splitlow(v, b-n)
                if r2 is None:
                    return None
                part, pw = r2[1], b-n
            else:
                if r is None:
                    return None
                part, pw = r[0], n+k-a
        else:
            part, pw = lowbits(v, q), q
        acc = X.add(X.scale(acc, 1 << pw), part)
        got += pw
    return acc if got == k else None


def lowbits(v, q):
    u = X.umax(v)
    if u is not None and u < (1 << q) and X.nonneg(v):
        return v
    if v.op == 'bits' and isnum(v.args[2]) == q:
        return X.bits(v.args[0], v.args[1], v.args[2], False)
    r = X._splitlow(v, q)
    if r is not None:
        return r[1]
    return X.mod(v, const(1 << q))


def readbuf(en, buf, off, w, st):
    """read back bits stored by pack_into (whole-field match) """
    root, p = en.rootpath(buf)
    stores = en.getmem(st, root, '$st') or ()
    if any(s.op == 'slice3' for q, v in stores for s in q):
        return None
    n, k = isnum(off), isnum(w)
    if p:
        return None
    # per-byte stores become 8-bit field stores
    fs = []
    for q, v in stores:
        if len(q) != 1:
            return None
        if q[0].op == 'bl':
            fs.append((q[0].args[0], q[0].args[1], v))
        else:
            fs.append((X.scale(q[0], 8), const(8), v))
    for o2, w2, v in reversed(fs):
        if o2 is off and w2 is w:
            return lowbits(v, int(k)) if k is not None else v
        d = isnum(X.sub(o2, off))
        q = isnum(w2)
        if d is None or q is None or k is None:
            return None
        d, q = int(d), int(q)
        if d >= k or d+q <= 0:
            continue
        if n is None:
            # relative composition
            pass
        # overlapping: compose bit ranges
        if d <= 0 and d+q >= k:
            lv_ = lowbits(v, q)
            lo = d+q-int(k)
            r = X._splitlow(lv_, lo)
            if r is None:
                return None
            return lowbits(r[0], int(k))
        # the field spans several stores: split the request
        out = X.ZERO
        segs = []
        if d > 0:
            segs.append((off, d))
            segs.append((X.add(off, const(d)), int(k)-d))
        else:
            segs.append((off, d+q))
            segs.append((X.add(off, const(d+q)), int(k)-d-q))
        for so, sw in segs:
            x = readbuf(en, buf, so, const(sw), st)
            if x is None:
                return None
            out = X.add(X.scale(out, 1 << sw), x)
        return out
    m = en.meta.get(root)
    if m is None or m.get('base') is not None:
        b = m['base'] if m is not None else buf
        return X.bits(b, off, w, False)
    if m is not None and m.get('fill') is X.ZERO and \
            en.getmem(st, root, '$l') is None:
        return X.ZERO
    return None


def off_arg(a, kw, k):
    if len(a) > k:
        return a[k]
    return kw.get('offset', X.ZERO)


def x_unpack_from(en, a, kw, st):
    f, buf = a[0], a[1]
    off = off_arg(a, kw, 2)
    if off.op == 'idx':
        off = en.snap(off, st)
    return unpack(en, f, buf, off, st)


def unpack(en, f, buf, off, st):
    if f.op == 'ite':
        return X.merge(f.args[0], unpack(en, f.args[1], buf, off, st),
                       unpack(en, f.args[2], buf, off, st))
    if f.op == 'strcat' and any(p.op == 'ite' for p in f.args[0]):
        for k, p in enumerate(f.args[0]):
            if p.op == 'ite':
                l = list(f.args[0])
                fa = en.strcat(l[:k]+[p.args[1]]+l[k+1:])
                fb = en.strcat(l[:k]+[p.args[2]]+l[k+1:])
                return X.merge(p.args[0], unpack(en, fa, buf, off, st),
                               unpack(en, fb, buf, off, st))
    items = parsefmt(en, f)
    if items is None:
        return mk('call', 'bs.unpack_from', (en.snap(f, st),
                                             en.snap(buf, st), off))
    out = []
    parts = []
    for it in items:
        if it[0] == 'rep':
            tot = X.ZERO
            for l, w in it[2]:
                tot = X.add(tot, w)
            if len(it[2]) != 1:
                return mk('call', 'bs.unpack_from', (
                    en.snap(f, st), en.snap(buf, st), off))
            lv = mk('lv', it[1], 80)
            l, w = it[2][0]
            v = fld(en, l, buf, X.add(off, X.mul(w, lv)), w, st)
            parts.append(mk('tuple', tuple(out)))
            parts.append(mk('comp', it[1], v, X.TRUE, lv))
            out = []
            off = X.add(off, X.mul(tot, it[1]))
            continue
        l, w = it
        v = fld(en, l, buf, off, w, st)
        off = X.add(off, w)
        if v is not None:
            out.append(v)
    if parts:
        parts.append(mk('tuple', tuple(out)))
        return en.concat(*parts)
    return mk('tuple', tuple(out))


def x_unpack(en, a, kw, st):
    return unpack(en, a[0], a[1], X.ZERO, st)


def x_unpack_dict(en, a, kw, st):
    f, names, buf = a[0], a[1], a[2]
    v = unpack(en, f, buf, off_arg(a, kw, 3), st)
    c = en.content(names, st)
    o = en.new('dict', 'dict')
    if c.op != 'tuple':
        return en.opq('unpack_dict')
    st.mem[(o, '$st')] = tuple(((k,), en.t_idx(v, const(i)))
                               for i, k in enumerate(c.args[0]))
    return o


def x_pack(en, a, kw, st):
    items = parsefmt(en, a[0])
    if items is None:
        return None
    out = []
    vals = list(a[1:])
    for it in items:
        if it[0] == 'rep':
            return None
        l, w = it
        if l in ('p', 'P'):
            out.append(tup(w, X.ZERO))
            continue
        if not vals:
            return None
        v = vals.pop(0)
        out.append(tup(w, en.snap(v, st)))
    return mk('pack', tuple(x.args[0] for x in out))


def x_pack_into(en, a, kw, st):
    f, buf, off = a[0], a[1], a[2]
    vals = list(a[3:])
    items = parsefmt(en, f)
    if items is None:
        en.store_index(buf, mk('bl', off, en.snap(f, st)),
                       mk('tuple', tuple(en.snap(v, st) for v in vals)), st)
        return X.NONE
    for it in items:
        if it[0] == 'rep':
            en.store_index(buf, mk('bl', off, en.snap(f, st)),
                           mk('tuple', tuple(en.snap(v, st) for v in vals)),
                           st)
            return X.NONE
        l, w = it
        if l in ('p', 'P'):
            off = X.add(off, w)
            continue
        v = vals.pop(0) if vals else X.UNDEF
        v = en.snap(v, st)
        if v.op == 'star':
            en.store_index(buf, mk('bl', off, mk('rest', en.snap(f, st))),
                           v, st)
            return X.NONE
        en.store_index(buf, mk('bl', off, w), v, st)
        en.ev('pack', st, buf, off, w, v, const(l))
        off = X.add(off, w)
    return X.NONE


_SW = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
       'q': 8, 'Q': 8}


def structfmt(f):
    """(count of pad bytes before, size, signed) per field, or None"""
    s = X.cval(f) if f.op == 'c' else None
    if not isinstance(s, str) or not s or s[0] not in '<>!':
        return None
    out, pad = [], 0
    for n, c in re.findall(r'(\d*)(.)', s[1:].replace(' ', '')):
        k = int(n) if n else 1
        if c == 'x':
            pad += k
        elif c in _SW:
            for _ in range(k):
                out.append((pad, _SW[c], c.islower()))
                pad = 0
        else:
            return None
    return s[0] != '<', out


def x_struct(en, a, kw, st):
    r = structfmt(a[0])
    if r is None or not kw.keys() <= {'offset'}:
        return None
    off = X.scale(off_arg(a, kw, 2), 8)
    out = []
    for pad, n, sg in r[1]:
        off = X.add(off, const(8*pad))
        v = intread(en, a[1], off, n, sg, r[0], st)
        if v is None:
            return None
        out.append(v)
        off = X.add(off, const(8*n))
    return mk('tuple', tuple(out))


def intread(en, buf, off, n, sg, big, st):
    if big or n == 1:
        return readbits(en, buf, off, const(8*n), sg, st)
    if sg:
        return None
    v = X.ZERO
    for k in range(n):
        v = X.add(v, X.scale(readbits(en, buf, X.add(off, const(8*k)),
                                      const(8), False, st), 1 << 8*k))
    return v


def x_struct_into(en, a, kw, st):
    r = structfmt(a[0]) if len(a) > 3 else None
    if r is None or not r[0] or kw or len(a) != 3+len(r[1]):
        return None
    off = X.scale(a[2], 8)
    for (pad, n, sg), v in zip(r[1], a[3:]):
        off = X.add(off, const(8*pad))
        v = en.snap(v, st)
        w = const(8*n)
        en.store_index(a[1], mk('bl', off, w), v, st)
        en.ev('pack', st, a[1], off, w, v, const('s' if sg else 'u'))
        off = X.add(off, w)
    return X.NONE


def x_from_bytes(en, a, kw, st):
    if not a or not kw.keys() <= {'byteorder', 'signed'}:
        return None
    o = kw.get('byteorder', a[1] if len(a) > 1 else const('big'))
    o = X.cval(o) if o.op == 'c' else None
    sg = kw.get('signed', X.FALSE)
    b = a[0]
    if o not in ('big', 'little') or sg not in (X.TRUE, X.FALSE):
        return None
    if b.op == 'slice' and b.args[3] is X.NONE and b.args[2] is not X.NONE:
        lo = X.ZERO if b.args[1] is X.NONE else b.args[1]
        n = isnum(X.sub(b.args[2], lo))
        if n is not None and 0 < n <= 32 and n.denominator == 1 and \
                (isnum(lo) is None or X.nonneg(lo)):
            b, lo = b.args[0], X.scale(lo, 8)
            return intread(en, b, lo, int(n), sg is X.TRUE,
                           o == 'big', st)
    return None


FN = {
    'struct.unpack_from': x_struct, 'struct.unpack': x_struct,
    'struct.pack_into': x_struct_into,
    'int.from_bytes': x_from_bytes,
    'len': x_len, 'range': x_range, 'enumerate': x_enumerate, 'zip': x_zip,
    'int': x_int, 'float': x_float, 'str': x_str, 'bool': x_bool,
    'list': x_list, 'tuple': x_tuple, 'set': x_set, 'dict': x_dict,
    'min': x_minmax('min'), 'max': x_minmax('max'), 'sum': x_sum,
    'abs': x_abs, 'round': x_round, 'pow': x_pow, 'isinstance': x_isinstance,
    'bytes': x_bytes, 'bytearray': x_bytearray, 'memoryview': x_identity,
    'super': x_super, 'open': x_open, 'gzip.open': x_open, 'exit': x_exit,
    'sys.exit': x_exit, 'quit': x_exit, 'map': x_map, 'reversed': x_reversed,
    'sorted': x_sorted, 'hasattr': x_hasattr, 'getattr': x_getattr,
    'setattr': x_setattr, 'any': x_anyall('any'), 'all': x_anyall('all'),
    'np.any': x_anyall('any'), 'np.all': x_anyall('all'),
    'np.zeros': x_full(None), 'np.ones': x_full(None), 'np.empty': None,
    'np.full': x_full('arg'), 'np.array': x_array, 'np.asarray': x_asarray,
    'np.arange': x_arange, 'np.append': x_append, 'norm': x_norm,
    'dot': x_dot, 'matmul_': x_matmul, 'isnan': x_isnan, 'mod_': x_mod, 'divmod': x_divmod,
    'mul_': arith2('Mult'), 'add_': arith2('Add'), 'sub_': arith2('Sub'),
    'div_': arith2('Div'), 'np.sum': x_sum,
    'np.int32': x_int, 'np.int64': x_int, 'np.float64': x_identity,
    'np.uint8': x_int, 'np.copy': x_copy,
    'copy.copy': x_copy, 'copy.deepcopy': x_copy, 'copy': None,
    'bs.unpack_from': x_unpack_from, 'bs.unpack': x_unpack,
    'bs.unpack_from_dict': x_unpack_dict, 'bs.pack': x_pack,
    'bs.pack_into': x_pack_into, 'np.minimum': x_minmax('min'),
    'np.maximum': x_minmax('max'),
}


def _late():
    FN['np.zeros'] = lambda en, a, kw, st: x_full(X.ZERO)(en, a, kw, st)
    FN['np.empty'] = lambda en, a, kw, st: x_full(X.UNDEF)(en, a, kw, st)
    FN['np.ones'] = lambda en, a, kw, st: x_full(X.ONE)(en, a, kw, st)
    FN['np.zeros_like'] = lambda en, a, kw, st: x_fulllike(X.ZERO)(
        en, a, kw, st)
    FN['np.ones_like'] = lambda en, a, kw, st: x_fulllike(X.ONE)(
        en, a, kw, st)
    del FN['copy']


_late()


# ------------------------------------------------------------------- methods

ACCUM = {'update'}


def method(en, b, name, args, kw, st):
    h = METH.get(name)
    if h is not None:
        r = h(en, b, args, kw, st)
        if r is not None:
            return r
    if b.op == 'super':
        return X.NONE
    if name in ACCUM and b.op == 'ite' and X.contains(
            b, lambda t: t.op == 'call'):
        en.cond_store(b, st, lambda x, s: method(en, x, name, args, kw, s))
        return X.NONE
    cur = b
    if b.op == 'call':
        # state of an opaque library object, as fed so far
        cur = en.getmem(st, b, '$upd') or b
    vals = [en.snap(x, st) for x in [cur] + args]
    kws = tuple(sorted((k, en.snap(v, st)) for k, v in kw.items()))
    en.ev('meth', st, name, tuple(vals))
    if name in ACCUM and b.op == 'call':
        st.mem[(b, '$upd')] = mk('call', '.'+name, tuple(vals))
        return X.NONE
    if kws:
        t = mk('call', '.'+name, tuple(vals), tuple(
            tup(const(k), v) for k, v in kws))
    else:
        t = mk('call', '.'+name, tuple(vals))
    en.extcalls.append(t)
    return t


def m_keys(en, b, a, kw, st):
    return mk('keys', b)


def m_items(en, b, a, kw, st):
    return mk('items', b)


def m_values(en, b, a, kw, st):
    return mk('values', b)


def m_append(en, b, a, kw, st):
    if b.op == 'ite':
        en.cond_store(b, st, lambda x, s: m_append(en, x, a, kw, s))
        return X.NONE
    m = en.meta.get(b)
    if m is not None and en.getmem(st, b, '$l') is not None:
        en.extend(b, mk('tuple', tuple(a)), st)
        return X.NONE
    # symbolic list: its content evolves under '$l'
    st.mem[(b, '$l')] = en.concat(en.getmem(st, b, '$l') or mk('lst', b),
                                  mk('tuple', (en.snap(a[0], st),)))
    en.ev('append', st, b, a[0])
    return X.NONE


def m_extend(en, b, a, kw, st):
    m = en.meta.get(b)
    if m is not None and en.getmem(st, b, '$l') is not None:
        en.extend(b, a[0], st)
        return X.NONE
    st.mem[(b, '$l')] = en.concat(en.getmem(st, b, '$l') or mk('lst', b),
                                  en.snap(a[0], st))
    return X.NONE


def m_update(en, b, a, kw, st):
    d = a[0] if a else None
    if d is not None and en.kind(d) == 'dict':
        ks = en.dict_keys(d, st)
        if ks is not None:
            for k in ks:
                en.store_index(b, k, en.index(d, k, st), st)
            return X.NONE
        sts = en.getmem(st, d, '$st') or ()
        if en.meta[d].get('base') is None and sts and all(
                len(p) == 1 and p[0].op != 'ite' and not (
                    v.op == 'ite' and X.contains(v, lambda x: x is X.UNDEF))
                for p, v in sts):
            for p, v in sts:
                en.store_index(b, p[0], v, st)
            return X.NONE
    if b.op in ('attr', 'idx', 'obj', 'sym') and a:
        cur = en.getmem(st, b, '$upd')
        st.mem[(b, '$upd')] = mk('call', '.update', (
            b if cur is None else cur,) + tuple(en.snap(x, st) for x in a))
        return X.NONE
    return None


def m_get(en, b, a, kw, st):
    d = a[1] if len(a) > 1 else X.NONE
    c = en.contains(a[0], b, st)
    if c.op == 'c':
        return en.index(b, a[0], st) if X.cval(c) else d
    return X.merge(c, en.index(b, a[0], st), d)


def m_setdefault(en, b, a, kw, st):
    d = a[1] if len(a) > 1 else X.NONE
    c = en.contains(a[0], b, st)
    s1, s2 = st.under(c), st.under(c, False)
    en.store_index(b, a[0], d, s2)
    m = en.merge_st(c, s1, s2, st.asm, st.pc)
    st.env, st.mem = m.env, m.mem
    return en.index(b, a[0], st)


def m_copy(en, b, a, kw, st):
    return copyof(en, b, st)


def m_format(en, b, a, kw, st):
    if b.op != 'c':
        return None
    s = X.cval(b)
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            if spec and '{' in spec:
                return None
            parts.append(en.fmt(v, (('!' + conv) if conv else '') +
                                (spec or ''), st))
    except IndexError:
        en.ev('fmtargs', st, b)
        return None
    return en.strcat(parts)


def m_join(en, b, a, kw, st):
    c = en.content(a[0], st)
    if c.op == 'tuple' and b.op == 'c':
        out = []
        for k, x in enumerate(c.args[0]):
            if k:
                out.append(b)
            out.append(x)
        return en.strcat(out)
    return None


def m_strmeth(nm):
    def f(en, b, a, kw, st):
        if b.op == 'c' and isinstance(X.cval(b), (str, bytes)) and \
                all(x.op == 'c' for x in a) and not kw:
            try:
                r = getattr(X.cval(b), nm)(*[X.cval(x) for x in a])
            except (TypeError, ValueError):
                return None
            if isinstance(r, list):
                return en.newlist(st, [const(x) for x in r])
            return const(r)
        return None
    return f


def m_readline(en, b, a, kw, st):
    if b in en.meta and en.meta[b]['kind'] != 'file':
        return None
    return en.readline(b, st)


def m_write(en, b, a, kw, st):
    if b.op in ('sym', 'call', 'attr') or True:
        cur = st.mem.get((b, '$out'), mk('tuple', ()))
        st.mem[(b, '$out')] = en.concat(cur, mk('tuple', (en.snap(
            a[0], st),)))
        en.ev('write', st, b, en.snap(a[0], st))
        return X.NONE


def m_none(en, b, a, kw, st):
    return X.NONE


def m_remove(en, b, a, kw, st):
    en.ev('remove', st, b, a[0] if a else X.NONE)
    cur = en.getmem(st, b, '$l')
    if cur is None:
        cur = mk('lst', b)
    st.mem[(b, '$l')] = mk('call', 'removed', (cur, en.snap(a[0], st)))
    return X.NONE


def m_pop(en, b, a, kw, st):
    en.ev('remove', st, b, a[0] if a else X.NONE)
    if en.kind(b) == 'dict' or a and a[0].op != 'c' or len(a) == 2:
        v = en.index(b, a[0], st)
        en.store_index(b, a[0], X.UNDEF, st)
        return v
    c = en.content(b, st)
    if c.op == 'tuple' and c.args[0]:
        k = int(isnum(a[0])) if a else -1
        el = list(c.args[0])
        v = el.pop(k)
        st.mem[(b, '$l')] = mk('tuple', tuple(el))
        return v
    return None


def m_clear(en, b, a, kw, st):
    st.mem[(b, '$l')] = mk('tuple', ())
    st.mem[(b, '$st')] = ()
    return X.NONE


def m_mutlist(nm):
    def f(en, b, a, kw, st):
        en.ev('mutate', st, b, nm)
        cur = en.getmem(st, b, '$l')
        if cur is None and (en.type_of(b) is not None):
            return None
        if cur is None:
            cur = mk('lst', b)
        st.mem[(b, '$l')] = mk('call', 'L.'+nm, (en.snap(cur, st),) + tuple(
            en.snap(x, st) for x in a))
        return X.NONE
    return f


def m_any(nm):
    def f(en, b, a, kw, st):
        c = en.content(b, st)
        if c.op == 'tuple' and not a:
            cs = [X.truth(y) for y in c.args[0]]
            return X.disj(*cs) if nm == 'any' else X.conj(*cs)
        return mk('call', 'np.'+nm, tuple(en.snap(x, st) for x in [b]+a))
    return f


def m_sum(en, b, a, kw, st):
    return x_sum(en, [b]+a, kw, st)


def m_identity(en, b, a, kw, st):
    return b


def m_dot(en, b, a, kw, st):
    if len(a) != 1 or kw:
        return None
    return en.matmul(b, a[0], st)


def m_transpose(en, b, a, kw, st):
    if a or kw:
        return None
    return en.valattr(b, 'T', st)


def m_fn(nm):
    def f(en, b, a, kw, st):
        return call(en, 'np.'+nm, [b]+a, kw, st, None)
    return f


def x_hypot(en, a, kw, st):
    if len(a) != 2 or kw:
        return None
    s = X.add(en.binop(ast.Mult(), a[0], a[0], st),
              en.binop(ast.Mult(), a[1], a[1], st))
    return elementwise(en, 'sqrt', s, st)


def x_where1(en, a, kw, st):
    if len(a) != 1 or kw:
        return None
    return mk('call', 'np.where', (en.snap(a[0], st),))


def x_flatnz(en, a, kw, st):
    if len(a) != 1 or kw:
        return None
    return en.index(mk('call', 'np.where', (en.snap(a[0], st),)), X.ZERO, st)


def x_shape(en, a, kw, st):
    if len(a) != 1 or kw:
        return None
    return en.valattr(a[0], 'shape', st)


def x_transpose(en, a, kw, st):
    return m_transpose(en, a[0], a[1:], kw, st)


def m_astype(en, b, a, kw, st):
    if len(a) == 1 and not kw and a[0].op == 'ext' and \
            a[0].args[0] in ('builtins.int', 'np.int64', 'np.int32'):
        return elementwise(en, 'int', b, st)
    return None


def m_tolist(en, b, a, kw, st):
    return b


def m_fill(en, b, a, kw, st):
    m = en.meta.get(b)
    c = en.content(b, st)
    if c.op == 'tuple':
        st.mem[(b, '$l')] = mk('tuple', (a[0],)*len(c.args[0]))
        return X.NONE
    en.store_index(b, mk('slice3', X.NONE, X.NONE, X.NONE), a[0], st)
    return X.NONE


METH = {
    'keys': m_keys, 'items': m_items, 'values': m_values, 'append': m_append,
    'extend': m_extend, 'update': m_update, 'get': m_get,
    'setdefault': m_setdefault, 'copy': m_copy, 'format': m_format,
    'join': m_join, 'readline': m_readline, 'write': m_write,
    'flush': m_none, 'close': m_none, 'remove': m_remove, 'pop': m_pop,
    'clear': m_clear, 'sort': m_mutlist('sort'), 'any': m_any('any'),
    'insert': m_mutlist('insert'), 'add': m_mutlist('add'),
    'discard': m_mutlist('discard'), 'reverse': m_mutlist('reverse'),
    'all': m_any('all'), 'sum': m_sum, 'item': m_identity,
    'tolist': m_tolist, 'fill': m_fill, 'flatten': m_identity,
    'ravel': m_identity, 'dot': m_dot, 'astype': m_astype, 'transpose': m_transpose,
    'bit_length': None,
}
for _n in ('strip', 'upper', 'lower', 'replace', 'split', 'startswith',
           'endswith', 'rstrip', 'lstrip', 'ljust', 'rjust', 'zfill',
           'find', 'isdigit', 'encode', 'decode', 'index'):
    METH[_n] = m_strmeth(_n)
del METH['bit_length']
for _n in ('max', 'min', 'mean', 'std', 'var', 'argmin', 'argmax', 'argsort',
           'cumsum', 'prod', 'nonzero', 'trace', 'diagonal', 'squeeze',
           'repeat'):
    METH[_n] = m_fn(_n)
FN['np.transpose'] = x_transpose
FN['np.shape'] = x_shape
FN['np.nonzero'] = x_where1
FN['np.flatnonzero'] = x_flatnz
FN['hypot'] = x_hypot
