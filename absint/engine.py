"""Abstract interpreter: executes the syntax tree over value-number terms.

Both sides of every branch are analysed and joined (no path enumeration, no
solver, nothing of the analysed program runs).  See terms.py for the domain.
"""
import ast
import sys
import math
from fractions import Fraction
from . import terms as X
from .terms import T, mk, const, isnum
from .model import Fn, Cls, Mod, Broken
from . import extlib

sys.setrecursionlimit(60000)

UNROLL = 320
MAXDEPTH = 40


class Limit(Exception):
    pass


class Explode(Exception):
    """an unrolled loop makes the state grow without bound"""


class St:
    __slots__ = ('env', 'mem', 'asm', 'pc')

    def __init__(self, env, mem, asm, pc=()):
        self.env, self.mem, self.asm, self.pc = env, mem, asm, pc

    def copy(self):
        return St(dict(self.env), dict(self.mem), self.asm, self.pc)

    def under(self, c, val=True):
        s = self.copy()
        s.asm = X.assume(self.asm, c, val)
        s.pc = self.pc + ((c if val else X.lnot(c)),)
        return s


class Frame:
    __slots__ = ('fn', 'selft', 'line')

    def __init__(self, fn):
        self.fn = fn
        self.selft = None
        self.line = 0


NUMFN = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sqrt',
         'exp', 'log', 'log10', 'floor', 'ceil', 'fabs', 'abs', 'norm', 'dot',
         'sign', 'fmod', 'round'}
CANON = {'math.atan2': 'arctan2', 'math.atan': 'arctan', 'math.asin': 'arcsin',
         'math.acos': 'arccos', 'np.atan2': 'arctan2', 'np.absolute': 'abs',
         'math.fabs': 'abs', 'np.fabs': 'abs', 'np.abs': 'abs',
         'math.floor': 'floor', 'np.floor': 'floor', 'np.linalg.norm': 'norm',
         'np.power': 'pow', 'np.pow': 'pow', 'math.pow': 'pow',
         'np.fmod': 'fmod', 'math.fmod': 'fmod', 'np.remainder': 'mod_',
         'np.mod': 'mod_', 'np.multiply': 'mul_', 'np.add': 'add_',
         'np.subtract': 'sub_', 'np.divide': 'div_', 'np.square': 'square',
         'np.matmul': 'matmul_', 'np.dot': 'dot', 'np.inner': 'dot',
         'np.amax': 'np.max', 'np.amin': 'np.min', 'np.identity': 'np.eye',
         'np.hypot': 'hypot', 'math.hypot': 'hypot', 'np.rint': 'np.round', 'np.around': 'np.round'}
for _n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'log10', 'ceil',
           'arcsin', 'arccos', 'arctan', 'arctan2', 'sign', 'radians',
           'degrees', 'deg2rad', 'rad2deg', 'isnan', 'isinf'):
    for _m in ('np.', 'math.', 'numpy.'):
        CANON.setdefault(_m+_n, _n)
CANON['np.radians'] = CANON['math.radians'] = 'deg2rad'
CANON['np.degrees'] = CANON['math.degrees'] = 'rad2deg'


def constidx(i):
    """decision between few constant indices"""
    if i.op == 'ite':
        return i.sz < 120 and constidx(i.args[1]) and constidx(i.args[2])
    return i.op == 'c'


def tup(*a):
    return mk('tuple', tuple(a))


def israise(o):
    return o[1] == 'raise' or o[2].op in ('exc', 'exit')


VALNAMES = set(dir(list)) | set(dir(dict)) | set(dir(str)) | \
    set(dir(bytes)) | set(dir(set)) | set(dir(float)) | {
        'shape', 'size', 'T', 'ndim', 'dtype', 'flat', 'real', 'imag',
        'flatten', 'ravel', 'reshape', 'astype', 'sum', 'mean', 'std', 'var',
        'min', 'max', 'argmin', 'argmax', 'any', 'all', 'fill', 'dot',
        'transpose', 'tolist', 'tobytes', 'nonzero', 'item', 'round',
        'squeeze', 'repeat', 'cumsum', 'prod', 'trace', 'diagonal', 'take',
        'put', 'argsort', 'searchsorted', 'clip', 'conj', 'itemset', 'view',
        'write', 'read', 'readline', 'readlines', 'close', 'seek', 'update',
        'finalize', 'verify', 'digest', 'hexdigest'}


def isview(e):
    if isinstance(e, ast.IfExp):
        return isview(e.body) or isview(e.orelse)
    if isinstance(e, ast.Subscript):
        i = e.slice
        return isinstance(i, ast.Slice) or isinstance(i, ast.Tuple) and any(
            isinstance(x, ast.Slice) for x in i.elts) or (
            isinstance(e.value, ast.Subscript) and isview(e.value))
    return isinstance(e, ast.Attribute)


class Engine:
    def __init__(self, prog, prims=(), opts=None):
        X.reset()
        self.cells = []          # array cells written by outermost loops
        self.pending = []        # exceptional ends of the current statement
        self.p = prog
        self.prims = set(prims)
        self.opts = opts or {}
        self.smem = {}           # static heap (module/class constants)
        self.meta = {}           # obj term -> dict
        self.types = {}          # term -> Cls
        self.nobj = 0
        self.cache = {}          # static evaluations
        self.ctor = {}
        self.events = []
        self.frames = []
        self.depth = 0
        self.loopd = 0
        self.nodes = 0
        self.maxnodes = self.opts.get('maxnodes', 6_000_000)
        self.inlined = set()
        self.unsup = []
        self.closures = {}
        self.entry_sub = []      # [(pattern term, value)]
        self.seen_nodes = set()
        self.record = True
        self.viewn = {}
        self.lines = {}
        self.paramtypes = {}
        self.ctorsyms = set()
        self.psub = {}
        self.traced = set()
        X.REBUILD.update({
            'idx': lambda b, i: self.t_idx(b, i),
            'call': lambda n, a, *r: mk('call', n, a, *r),
            'len': lambda a: self.t_len(a),
            'first': lambda lv, p, v: mk('dc') if p is X.FALSE else
            mk('first', lv, p, v),
            'iters': lambda n, p, lv: n if p is X.TRUE else
            mk('iters', n, p, lv),
        })

    # ------------------------------------------------------------- utilities

    def opq(self, why, *args):
        self.unsup.append((why, self.where()))
        return mk('opq', why, tuple(args))

    def where(self):
        if not self.frames:
            return '?'
        f = self.frames[-1]
        return '%s:%d' % (f.fn.qual if f.fn else '?', f.line)

    def ev(self, kind, st, *args):
        if self.record:
            self.events.append((kind, st.pc, self.where(), args))

    def new(self, kind, desc, **kw):
        self.nobj += 1
        t = mk('obj', self.nobj, desc)
        kw['kind'] = kind
        self.meta[t] = kw
        return t

    def newlist(self, st, elems, kind='list'):
        o = self.new(kind, kind)
        st.mem[(o, '$l')] = mk('tuple', tuple(elems))
        return o

    def kind(self, t):
        m = self.meta.get(t)
        return m['kind'] if m else None

    # ------------------------------------------------------------ state join

    def merge_st(self, c, a, b, asm, pc):
        """a when c else b"""
        if c.op == 'c':
            r = a if X.cval(c) else b
            return r
        env = {}
        for k in [*a.env, *(k for k in b.env if k not in a.env)]:
            va, vb = a.env.get(k, X.UNDEF), b.env.get(k, X.UNDEF)
            env[k] = va if va is vb else X.merge(c, va, vb)
        mem = {}
        for k in [*a.mem, *(k for k in b.mem if k not in a.mem)]:
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is vb:
                mem[k] = va
                continue
            mem[k] = self.merge_mem(c, k, a, va, b, vb)
        return St(env, mem, asm, pc)

    def merge_mem(self, c, k, a, va, b, vb):
        base, f = k
        if f == '$st':
            return self.merge_stores(c, base, a, va or (), b, vb or ())
        if va is None or vb is None:
            if base.op == 'obj' and base not in self.statics and \
                    self.meta[base]['kind'] in ('inst', 'list', 'arr', 'dict'):
                if f == '$l':
                    return va if va is not None else vb
                # attribute of a fresh object set on one side only, or object
                # allocated on one side only
                other = b if va is None else a
                if (base, '$new') not in other.mem:
                    return va if va is not None else vb
                d = X.UNDEF
                m = self.meta[base]
                if m.get('base') is not None:
                    d = self.t_attr(m['base'], f)
            elif f == '$upd':
                d = base
            elif f.startswith('$'):
                d = self.smem.get(k)
                if d is None:
                    d = mk('lst', base) if f == '$l' else mk('sym', f)
            else:
                d = self.smem.get(k)
                if d is None:
                    d = self.init_attr(base, f)
            va = d if va is None else va
            vb = d if vb is None else vb
        return X.merge(c, va, vb)

    @property
    def statics(self):
        return self._statics

    _statics = set()

    def merge_stores(self, c, base, sa, a, sb, b):
        n = 0
        while n < len(a) and n < len(b) and a[n][1] is b[n][1] and \
                a[n][0] == b[n][0]:
            n += 1
        out = a[:n]
        ra, rb = a[n:], b[n:]
        pa, pb = [p for p, _ in ra], [p for p, _ in rb]
        # same paths on both sides, pairwise distinct
        keys = list(dict.fromkeys(pa + pb))
        if all(self.distinct(keys[i], keys[j]) for i in range(len(keys))
               for j in range(i)) and len(keys) <= 40 or len(keys) == 1:
            for p in keys:
                va = self.sread(base, out + ra, p, None, sa)
                vb = self.sread(base, out + rb, p, None, sb)
                out = self.sput(out, p, X.merge(c, self.oldify(va, base, p),
                                                self.oldify(vb, base, p)))
            return out
        for p, v in ra:
            cur = self.sread(base, out, p, None, sa)
            out = self.sput(out, p, X.merge(
                c, v, self.oldify(cur, base, p)))
        nc = X.lnot(c)
        for p, v in rb:
            cur = self.sread(base, out, p, None, sb)
            out = self.sput(out, p, X.merge(
                nc, v, self.oldify(cur, base, p)))
        return out

    # -------------------------------------------------------- array locations

    def distinct(self, p, q):
        """paths (tuples of index terms) that cannot overlap"""
        for x, y in zip(p, q):
            if x is y:
                continue
            if self.idistinct(x, y):
                return True
        return False

    def idistinct(self, x, y):
        if x.op == 'slice3' or y.op == 'slice3':
            return self.sdistinct(x, y)
        if x.op == 'bl' or y.op == 'bl':
            if x.op == y.op:
                ox, wx, oy, wy = x.args[0], x.args[1], y.args[0], y.args[1]
                d = isnum(X.sub(ox, oy))
                w1, w2 = isnum(wx), isnum(wy)
                if d is not None and w1 is not None and w2 is not None:
                    return d >= w2 or -d >= w1
            return False
        if x.op == 'c' and y.op == 'c':
            vx, vy = X.cval(x), X.cval(y)
            return not (vx == vy)
        if x.op == 'c' and y.op in ('tuple', 'call', 'strcat'):
            return isinstance(X.cval(x), str) and y.op == 'tuple'
        if x.op == 'tuple' and y.op == 'tuple' and \
                len(x.args[0]) == len(y.args[0]):
            return any(self.idistinct(a, b) for a, b in
                       zip(x.args[0], y.args[0]) if a is not b)
        if X.maybenum(x) and X.maybenum(y):
            try:
                d = isnum(X.sub(x, y))
            except X.Big:
                return False
            return d is not None and d != 0
        return False

    def sdistinct(self, x, y):
        def rng(t):
            if t.op == 'slice3':
                lo = isnum(t.args[0]) if t.args[0] is not X.NONE else \
                    Fraction(0)
                hi = isnum(t.args[1])
                return lo, hi
            n = isnum(t)
            return (n, n+1) if n is not None else (None, None)
        a, b = rng(x), rng(y)
        if a[0] is None or b[0] is None:
            if x.op == 'slice3' and y.op != 'slice3':
                try:
                    d = isnum(X.sub(y, x.args[0])) \
                        if x.args[0] is not X.NONE else None
                    if d is not None and d < 0:
                        return True
                    d = isnum(X.sub(y, x.args[1])) \
                        if x.args[1] is not X.NONE else None
                    if d is not None and d >= 0:
                        return True
                except X.Big:
                    pass
            return False
        if a[1] is not None and b[0] >= a[1]:
            return True
        if b[1] is not None and a[0] >= b[1]:
            return True
        return False

    def oldify(self, v, root, p):
        """the initial content of a location stored back into it"""
        if v.op == 'idx':
            if v is self.view(root, p):
                return mk('old', v)
        elif v.op == 'ite':
            a = self.oldify(v.args[1], root, p)
            b = self.oldify(v.args[2], root, p)
            if a is not v.args[1] or b is not v.args[2]:
                return X.ite(v.args[0], a, b)
        return v

    def sput(self, stores, p, v):
        # replace in place when later entries cannot overlap
        for k in range(len(stores)-1, -1, -1):
            q, _ = stores[k]
            if q == p:
                rest = stores[k+1:]
                return stores[:k] + rest + ((p, v),)
            if len(q) >= len(p) and q[:len(p)] == p:
                # overwritten sub-location
                stores = stores[:k] + stores[k+1:]
                continue
            if not self.distinct(p, q):
                break
        return stores + ((p, v),)

    def sread(self, root, stores, p, dflt, st, nalt=0):
        """value at path p of root"""
        n = len(stores)
        k = n-1
        while k >= 0:
            q, v = stores[k]
            k -= 1
            if self.distinct(p, q):
                continue
            if len(q) <= len(p):
                hd = p[:len(q)]
                if hd == q:
                    return self.read_path(v, p[len(q):], st)
                if any(x.op == 'slice3' for x in q + p):
                    m = self.slice_match(q, p)
                    if m is not None:
                        val, rest = m
                        r = v
                        for ix in val:
                            r = self.bcast_idx(r, ix, st)
                        return self.read_path(r, rest, st)
                    return mk('sel', self.snap_root(root, st),
                              tuple(mk('w', tup(*q2), v2)
                                    for q2, v2 in stores), tup(*p))
                if any(x.op in ('bl',) for x in q + p):
                    return mk('sel', self.snap_root(root, st),
                              tuple(mk('w', tup(*q2), v2)
                                    for q2, v2 in stores[:k+2]), tup(*p))
                if nalt >= 6:
                    return mk('sel', self.snap_root(root, st),
                              tuple(mk('w', tup(*q2), v2)
                                    for q2, v2 in stores[:k+2]), tup(*p))
                c = X.conj(*[X.eq(a, b) for a, b in zip(hd, q)])
                rest = self.sread(root, stores[:k+1], p, dflt, st, nalt+1)
                return X.merge(c, self.read_path(v, p[len(q):], st), rest)
            # deeper store: p is a view of it
            if q[:len(p)] == p:
                return self.view(root, p)
            return self.view(root, p)
        if dflt is not None:
            return dflt
        return self.base_read(root, p, st)

    def slice_match(self, q, p):
        """stored path q with slices covers scalar path p -> indices"""
        out = []
        for a, b in zip(q, p):
            if a is b:
                if a.op == 'slice3':
                    out.append(None)
                continue
            if a.op == 'slice3' and b.op != 'slice3':
                lo = a.args[0] if a.args[0] is not X.NONE else X.ZERO
                if a.args[2] is not X.NONE:
                    return None
                if a.args[1] is X.NONE and lo is X.ZERO:
                    out.append(b)
                    continue
                if a.args[1] is X.NONE:
                    return None
                try:
                    d1 = isnum(X.sub(b, lo))
                    d2 = isnum(X.sub(a.args[1], b))
                except X.Big:
                    return None
                if d1 is not None and d2 is not None and d1 >= 0 and d2 > 0:
                    out.append(const(d1))
                    continue
                return None
            return None
        if any(x is None for x in out):
            return None
        return out, p[len(q):]

    def bcast_idx(self, v, ix, st):
        if self.isscalar(v):
            return v
        return self.index(v, ix, st)

    def snap_root(self, root, st):
        return root

    def view(self, root, p):
        t = root
        for i in p:
            t = mk('idx', t, i)
        return t

    def read_path(self, v, p, st):
        for i in p:
            v = self.index(v, i, st)
        return v

    def base_read(self, root, p, st):
        m = self.meta.get(root)
        if m is not None and m['kind'] == 'arr' and m.get('base') is None:
            nd = m.get('nd', 1)
            if len(p) >= nd or nd is None:
                if any(x.op == 'slice3' for x in p):
                    return self.view(root, p)
                return m.get('fill', X.UNDEF)
            return self.view(root, p)
        if m is not None and m.get('base') is not None:
            return self.read_path(m['base'], p, st)
        if m is not None and m['kind'] == 'dict':
            return X.UNDEF
        t = root
        for i in p:
            t = self.t_idx(t, i)
        return t

    def rootpath(self, t):
        p = []
        while t.op == 'idx':
            p.append(t.args[1])
            t = t.args[0]
        return t, tuple(reversed(p))

    def t_attr(self, b, n):
        return mk('attr', b, n)

    def t_len(self, a):
        if a.op == 'tuple':
            return const(len(a.args[0]))
        if a.op == 'comp' and a.args[2] is X.TRUE:
            return a.args[0]
        if a.op == 'concat':
            n = X.ZERO
            for x in a.args[0]:
                n = X.add(n, self.t_len(x))
            return n
        if a.op == 'c' and isinstance(X.cval(a), (str, bytes)):
            return const(len(X.cval(a)))
        if a.op == 'ite':
            key = ('t_len', a)
            r = X._M.get(key)
            if r is None:
                r = X._M[key] = X.ite(a.args[0], self.t_len(a.args[1]),
                                      self.t_len(a.args[2]))
            return r
        return mk('len', a)

    def t_idx(self, b, i):
        """pure indexing of a value term"""
        if b.op == 'ite':
            key = ('t_idx', b, i)
            r = X._M.get(key)
            if r is None:
                r = X._M[key] = X.ite(b.args[0], self.t_idx(b.args[1], i),
                                      self.t_idx(b.args[2], i))
            return r
        n = isnum(i)
        if b.op == 'tuple':
            if n is not None and n.denominator == 1:
                k = int(n)
                if -len(b.args[0]) <= k < len(b.args[0]):
                    return b.args[0][k]
                return mk('idxerr', b, i)
        if b.op == 'c' and isinstance(X.cval(b), (str, bytes)) and \
                n is not None:
            try:
                return const(X.cval(b)[int(n)])
            except IndexError:
                return mk('idxerr', b, i)
        if b.op == 'concat' and n is not None and n.denominator == 1:
            k = int(n)
            parts = b.args[0]
            if k >= 0:
                for x in parts:
                    if x.op == 'tuple':
                        if k < len(x.args[0]):
                            return x.args[0][k]
                        k -= len(x.args[0])
                    else:
                        break
            elif parts[-1].op == 'tuple' and -k <= len(parts[-1].args[0]):
                return parts[-1].args[0][k]
        if b.op == 'comp' and b.args[2] is X.TRUE and b.args[3] is not None:
            return X.subst(b.args[1], {b.args[3]: i})
        if i.op == 'ite' and constidx(i):
            return X.ite(i.args[0], self.t_idx(b, i.args[1]),
                         self.t_idx(b, i.args[2]))
        if i.op == 'tuple' and not any(x.op == 'slice3' for x in i.args[0]):
            r = b
            for x in i.args[0]:
                r = self.t_idx(r, x)
            return r
        return mk('idx', b, i)

    # --------------------------------------------------------------- indexing

    def index(self, b, i, st):
        """b[i] in state st"""
        if b.op == 'ite':
            return X.merge(b.args[0], self.index(b.args[1], i, st),
                           self.index(b.args[2], i, st))
        if b is X.UNDEF:
            return X.UNDEF
        m = self.meta.get(b)
        if i.op == 'tuple' and (b.op != 'obj' or (m and m['kind'] != 'dict')) \
                and not (b.op == 'attr' and b.args[1] in self.dictlike):
            r = b
            parts = i.args[0]
            if not any(x.op == 'slice3' for x in parts):
                for x in parts:
                    r = self.index(r, x, st)
                return r
            return self.index_path(b, parts, st)
        if i.op == 'slice3':
            return self.slice(b, i, st)
        if m is not None:
            l = self.getmem(st, b, '$l')
            stores = self.getmem(st, b, '$st') or ()
            if l is not None:
                if not stores:
                    return self.lidx(l, i, st)
                return self.sread(b, stores, (i,), self.lidx(l, i, st), st)
            if m['kind'] == 'dict' and i.op == 'ite' and \
                    constidx(i):
                return X.ite(i.args[0], self.index(b, i.args[1], st),
                             self.index(b, i.args[2], st))
            return self.sread(b, stores, (i,), None, st)
        if b.op in ('tuple', 'comp', 'concat', 'c'):
            return self.t_idx(b, i)
        root, p = self.rootpath(b)
        stores = self.getmem(st, root, '$st')
        if stores:
            return self.sread(root, stores, p + (i,), None, st)
        if root in self.meta:
            l = self.getmem(st, root, '$l')
            if l is not None and not p:
                return self.lidx(l, i, st)
            if p and l is None:
                return self.base_read(root, p + (i,), st)
        return self.t_idx(b, i)

    dictlike = frozenset()

    def lidx(self, l, i, st):
        r = self.t_idx(l, i)
        return r

    def index_path(self, b, parts, st):
        root, p = self.rootpath(b)
        pth = p + tuple(parts)
        if root in self.meta and not p:
            l = self.getmem(st, root, '$l')
            if l is not None and parts[0].op != 'slice3':
                r = self.index(b, parts[0], st)
                for k, x in enumerate(parts[1:]):
                    r = self.index(r, x, st)
                return r
        stores = self.getmem(st, root, '$st') or ()
        if stores or root in self.meta:
            return self.sread(root, stores, pth, None, st)
        full = mk('slice3', X.NONE, X.NONE, X.NONE)
        while parts and parts[-1] is full:
            parts = parts[:-1]
        if not any(x.op == 'slice3' for x in parts):
            r = b
            for x in parts:
                r = self.t_idx(r, x)
            return r
        return mk('idx', b, mk('tuple', tuple(parts)))

    def slice(self, b, s, st):
        lo, hi, step = s.args
        v = self.content(b, st)
        if v.op == 'ite' and v.args[1].op in ('tuple', 'c') and \
                v.args[2].op in ('tuple', 'c'):
            return X.merge(v.args[0], self.slice(v.args[1], s, st),
                           self.slice(v.args[2], s, st))
        a = isnum(lo) if lo is not X.NONE else None
        z = isnum(hi) if hi is not X.NONE else None
        k = isnum(step) if step is not X.NONE else None
        okc = (lo is X.NONE or a is not None) and \
            (hi is X.NONE or z is not None) and \
            (step is X.NONE or k is not None)
        ints = [None if q is None else int(q) for q in (a, z, k)]
        if okc and v.op == 'tuple':
            el = v.args[0][slice(*ints)]
            if b.op == 'tuple':
                return mk('tuple', el)
            return self.newlist(st, el, self.kind(b) or 'list')
        if okc and v.op == 'c' and isinstance(X.cval(v), (str, bytes)):
            return const(X.cval(v)[slice(*ints)])
        m = self.meta.get(b)
        if m is not None and m['kind'] == 'arr' and okc and z is not None \
                and step is X.NONE and z >= 0 and (a is None or a >= 0) and \
                m.get('nd', 1) == 1 and z - (a or 0) <= 64:
            el = [self.index(b, const(q), st)
                  for q in range(int(a or 0), int(z))]
            return self.newlist(st, el, 'arr')
        if lo is X.ZERO:
            lo = X.NONE
        if lo is X.NONE and hi is X.NONE and step is X.NONE:
            return b
        if step is X.NONE and b.op == 'slice' and b.args[3] is X.NONE:
            # slice of a slice: x[a:b][c:d]
            b0, l0, h0, _ = b.args
            l0 = X.ZERO if l0 is X.NONE else l0
            if (X.nonneg(l0) or isnum(l0) is None) and (
                    lo is X.NONE or X.nonneg(lo)):
                # a start that is not a constant is an offset (not negative)
                nl = X.add(l0, X.ZERO if lo is X.NONE else lo)
                if hi is X.NONE:
                    return self.mkslice(b0, nl, h0)
                if (X.nonneg(hi) or isnum(hi) is None) and h0 is X.NONE:
                    return self.mkslice(b0, nl, X.add(l0, hi))
        root, p = self.rootpath(b)
        if root in self.meta:
            stores = self.getmem(st, root, '$st') or ()
            l = self.getmem(st, root, '$l')
            if l is not None and not p and not stores:
                return mk('slice', l, lo, hi, step)
            sl = mk('slice3', lo, hi, step)
            return self.sread(root, stores, p + (sl,),
                              mk('idx', b, sl), st)
        return mk('slice', b, lo, hi, step)

    def mkslice(self, b, lo, hi):
        if lo is X.ZERO:
            lo = X.NONE
        if lo is X.NONE and hi is X.NONE:
            return b
        return mk('slice', b, lo, hi, X.NONE)

    def store_index(self, b, i, v, st):
        if b.op == 'ite':
            self.cond_store(b, st, lambda x, s: self.store_index(x, i, v, s))
            return
        if i.op == 'ite' and constidx(i):
            c = i.args[0]
            s1, s2 = st.under(c), st.under(c, False)
            self.store_index(b, i.args[1], v, s1)
            self.store_index(b, i.args[2], v, s2)
            m = self.merge_st(c, s1, s2, st.asm, st.pc)
            st.env, st.mem = m.env, m.mem
            return
        m = self.meta.get(b)
        if m is not None:
            l = self.getmem(st, b, '$l')
            n = isnum(i)
            if l is not None and n is not None and l.op == 'tuple' and not \
                    (self.getmem(st, b, '$st')):
                k = int(n)
                el = list(l.args[0])
                if -len(el) <= k < len(el):
                    el[k] = v
                    st.mem[(b, '$l')] = mk('tuple', tuple(el))
                    return
            if l is not None and i.op == 'slice3' and l.op == 'tuple':
                q = [isnum(x) if x is not X.NONE else None for x in i.args]
                if all(x is X.NONE or isnum(x) is not None for x in i.args):
                    el = list(l.args[0])
                    idx = range(len(el))[slice(*[None if z is None else int(z)
                                                 for z in q])]
                    for j, k in enumerate(idx):
                        el[k] = self.elem_or_self(v, j, st)
                    st.mem[(b, '$l')] = mk('tuple', tuple(el))
                    return
        if m is not None and m['kind'] == 'arr' and (
                i.op in X.ATOMS + ('not', 'and', 'or')):
            old = self.small(b, st)
            mask = old and self.maskvec(i, len(old))
            if mask and (self.isscalar(v) or self.kind(v) is None and
                         v.op not in ('tuple', 'comp', 'acc', 'arrv')):
                for k, c in enumerate(mask):
                    self.store_index(b, const(k), X.merge(c, v, old[k]), st)
                return
        root, p = self.rootpath(b)
        if root.op == 'ite':
            self.cond_store(root, st, lambda x, s: self.store_index(
                self.view(x, p), i, v, s))
            return
        if i.op == 'tuple' and self.kind(b) != 'dict' and \
                not (b.op == 'attr' and b.args[1] in self.dictlike):
            path = p + i.args[0]
            full = mk('slice3', X.NONE, X.NONE, X.NONE)
            while len(path) > len(p)+1 and path[-1] is full:
                path = path[:-1]
        else:
            path = p + (i,)
        self.store_path(root, path, v, st)

    def store_path(self, root, path, v, st):
        last = path[-1]
        if last.op == 'slice3' and last.args[2] is X.NONE:
            lo, hi = last.args[0], last.args[1]
            lo = X.ZERO if lo is X.NONE else lo
            m = self.meta.get(root)
            if hi is X.NONE and m is not None and m.get('dims') and \
                    len(path) <= len(m['dims']) and \
                    len(m['dims']) == m.get('nd', 1):
                hi = m['dims'][len(path)-1]
            if hi is not X.NONE:
                try:
                    w = isnum(X.sub(hi, lo))
                except X.Big:
                    w = None
                if w is not None and 0 < w <= 64 and \
                        isnum(lo) is not None and lo.op == 'c':
                    for j in range(int(w)):
                        self.store_path(root, path[:-1] +
                                        (X.add(lo, const(j)),),
                                        self.elem_or_self(v, j, st), st)
                    return
        stores = self.getmem(st, root, '$st') or ()
        m = self.meta.get(root)
        if m is None or root in self._statics:
            self.ev('store', st, root, path, v)
        st.mem[(root, '$st')] = self.sput(stores, path,
                                          self.oldify(v, root, path))

    def maskvec(self, c, n):
        """the elements of a boolean mask over a small array"""
        if c.op in ('eq', 'lt', 'ltg'):
            x, y = c.args[:2]
            if not (x.op == 'tuple' and len(x.args[0]) == n or
                    y.op == 'tuple' and len(y.args[0]) == n):
                return None
            def at(t, k):
                return t.args[0][k] if t.op == 'tuple' else t
            try:
                if c.op == 'eq':
                    return [X.eq(at(x, k), at(y, k)) for k in range(n)]
                return [X.lt(at(x, k), at(y, k), *c.args[2:])
                        for k in range(n)]
            except X.Big:
                return None
        if c.op == 'not':
            v = self.maskvec(c.args[0], n)
            return v and [X.lnot(x) for x in v]
        if c.op in ('and', 'or'):
            vs = [self.maskvec(x, n) for x in c.args[0]]
            if not all(vs):
                return None
            f = X.conj if c.op == 'and' else X.disj
            return [f(*[v[k] for v in vs]) for k in range(n)]
        return None

    def elem_or_self(self, v, j, st):
        if self.isscalar(v):
            return v
        return self.index(v, const(j), st)

    def isscalar(self, v):
        if v.op in ('bits', 'lv', 'len', 'pow2', 'nan', 'floordiv', 'shr',
                    'inf'):
            return True
        if v.op == 'c':
            return not isinstance(X.cval(v), str)
        if v.op == 'call':
            return v.args[0] in ('norm', 'floor', 'sin', 'cos', 'int', 'float')
        if v.op == 'poly':
            return all(self.isscalar(a) for mo, _ in v.args[0]
                       for a, _ in mo)
        if v.op == 'ite':
            return self.isscalar(v.args[1]) and self.isscalar(v.args[2])
        return False

    def cond_store(self, ref, st, f):
        c, a, b = ref.args
        if not st.asm.get(c) is None:
            f(a if st.asm.get(c) else b, st)
            return
        s1, s2 = st.under(c), st.under(c, False)
        f(a, s1)
        f(b, s2)
        m = self.merge_st(c, s1, s2, st.asm, st.pc)
        st.env, st.mem = m.env, m.mem

    def getmem(self, st, b, f):
        v = st.mem.get((b, f))
        if v is None:
            v = self.smem.get((b, f))
        if isinstance(v, T) and v.ite and st.asm:
            v = X.restrict(v, st.asm)
        return v

    def content(self, t, st):
        """value of a container (list/array content when known)"""
        if t in self.meta:
            l = self.getmem(st, t, '$l')
            stores = self.getmem(st, t, '$st') or ()
            if l is not None:
                if not stores:
                    return l
                if l.op == 'tuple':
                    el = [self.sread(t, stores, (const(k),), l.args[0][k], st)
                          for k in range(len(l.args[0]))]
                    return mk('tuple', tuple(el))
                return mk('upd', l, tuple(mk('w', tup(*q), v)
                                          for q, v in stores))
        elif t.op == 'ite':
            a, b = self.content(t.args[1], st), self.content(t.args[2], st)
            if a is not t.args[1] or b is not t.args[2]:
                return X.ite(t.args[0], a, b)
        return t

    # -------------------------------------------------------------- attributes

    def type_of(self, t):
        m = self.meta.get(t)
        if m is not None:
            return m.get('cls')
        c = self.types.get(t)
        if c is not None:
            return c
        if t.op == 'attr':
            bc = self.type_of(t.args[0])
            if bc is not None:
                r = self.attr_type(bc, t.args[1])
                if r is not None:
                    self.types[t] = r
                    return r
        if t.op == 'idx':
            # element type of container attributes
            r = self.elem_type(t)
            if r is not None:
                return r
        return None

    elemtypes = {}

    def elem_type(self, t):
        root, p = self.rootpath(t)
        if root.op == 'attr':
            q = self.elemtypes.get(root.args[1])
            if q is not None:
                return self.p.classes.get(q)
            bc = self.type_of(root.args[0])
            if bc is not None and len(p) == 1:
                o, st = self.ctor_state(bc)
                v = st.mem.get((o, root.args[1])) if o is not None else None
                if v in self.meta:
                    l = st.mem.get((v, '$l'))
                    if l is not None and l.op == 'tuple':
                        el = l.args[0]
                    elif l is not None and l.op == 'comp':
                        el = [l.args[1]]
                    else:
                        el = [w for q, w in st.mem.get((v, '$st')) or ()
                              if len(q) == 1]
                    cl = {self.meta[x].get('cls') if x in self.meta else None
                          for x in el}
                    if len(cl) == 1:
                        return cl.pop()
        return None

    def ctor_state(self, cls):
        r = self.ctor.get(cls.qual)
        if r is not None:
            return r
        self.ctor[cls.qual] = (None, None)
        init = cls.find('__init__')
        rec, self.record = self.record, False
        try:
            o = self.new('inst', cls.name, cls=cls)
            st = St({}, {(o, '$new'): X.TRUE}, X.Asm.of({}))
            if init is not None:
                a = init.node.args
                args = [mk('sym', 'ctor.' + x.arg) for x in a.args[1:]]
                for x in args:
                    self.ctorsyms.add(x)
                self.call_fn(init, [o] + args, {}, st)
        finally:
            self.record = rec
        for k, v in st.mem.items():
            self.smem.setdefault(k, v)
        self.ctor[cls.qual] = (o, st)
        return o, st

    def attr_type(self, cls, name):
        o, st = self.ctor_state(cls)
        if o is None:
            return None
        v = st.mem.get((o, name))
        if v is None:
            return None
        m = self.meta.get(v)
        if m is not None:
            return m.get('cls')
        return None

    def init_attr(self, base, name):
        """value of an attribute never written so far"""
        cls = self.type_of(base)
        if cls is not None and (name not in self.p.mutated or
                                name in self.forceconst):
            o, st = self.ctor_state(cls)
            if o is not None and base is not o:
                v = st.mem.get((o, name))
                if v is not None and not X.contains(
                        v, lambda x: x in self.ctorsyms) and \
                        not (self.meta.get(v) or {}).get('cls'):
                    obs = self.objs_in(v, st)
                    if any(self.meta[q]['kind'] == 'inst' or
                           self.meta[q]['kind'] in ('arr', 'list') and
                           (q, '$l') not in self.smem for q in obs) or \
                            X.contains(v, lambda x: x.op in (
                                'comp', 'rep', 'call', 'arrv')):
                        return self.t_attr(base, name)
                    for b in obs:
                        self._statics.add(b)
                    return v
        return self.t_attr(base, name)

    forceconst = frozenset()

    def objs_in(self, v, st, seen=None):
        seen = set() if seen is None else seen
        for o in X.leaves(v, lambda x: x.op == 'obj'):
            if o in seen:
                continue
            seen.add(o)
            for k in ('$l', '$st'):
                w = self.smem.get((o, k))
                if isinstance(w, T):
                    self.objs_in(w, st, seen)
                elif w:
                    for q, x in w:
                        self.objs_in(x, st, seen)
        return seen

    def getattr(self, b, name, st, node=None):
        op = b.op
        if op == 'ite':
            va = self.getattr(b.args[1], name, st, node)
            vb = self.getattr(b.args[2], name, st, node)
            return X.merge(b.args[0], va, vb)
        if op == 'modref':
            return self.modmember(b.args[0], name)
        if op == 'cls':
            return self.clsmember(self.p.classes[b.args[0]], name, st)
        if op == 'ext':
            full = b.args[0] + '.' + name
            return self.extmember(full)
        if op == 'super':
            cls, s = self.superinfo[b]
            mro = self.type_of(s).mro if self.type_of(s) else cls.mro
            k = mro.index(cls) if cls in mro else 0
            for c in mro[k+1:]:
                if name in c.methods:
                    return mk('bound', c.methods[name].qual, s)
            return mk('bmeth', b, name)
        if b is X.NONE or st.asm and op not in ('obj', 'c') and \
                st.asm.get(X.eq(b, X.NONE)) is True:
            return mk('noattr', 'None', name)
        v = st.mem.get((b, name))
        if v is None:
            v = self.smem.get((b, name))
        if v is not None:
            if v.ite and st.asm:
                v = X.restrict(v, st.asm)
            return v
        m = self.meta.get(b)
        cls = self.type_of(b)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                if f.prop:
                    return self.call_fn(f, [b], {}, st)
                if f.static:
                    return mk('func', f.qual)
                return mk('bound', f.qual, b)
            if m is not None:
                if m.get('base') is not None:
                    return self.getattr(m['base'], name, st, node)
                fa = cls.find_attr(name)
                if fa is not None:
                    return self.clsmember(cls, name, st)
                if b in self.external:
                    return self.t_attr(b, name)
                self.ev('undefattr', st, cls.qual, name)
                return mk('noattr', cls.name, name)
            fa = cls.find_attr(name)
            if fa is not None and name not in self.p.mutated and \
                    not self.ctor_has(cls, name):
                return self.clsmember(cls, name, st)
            return self.init_attr(b, name)
        if m is not None or op in ('tuple', 'c', 'comp', 'concat', 'poly',
                                   'bits', 'pack', 'strcat', 'call', 'slice'):
            r = self.valattr(b, name, st)
            if r is not None:
                return r
        if name in ('T', 'shape', 'size'):
            r = self.valattr(b, name, st)
            if r is not None:
                return r
        return self.t_attr(b, name)

    def ctor_has(self, cls, name):
        o, st = self.ctor_state(cls)
        return o is not None and (o, name) in st.mem

    external = frozenset()

    def valattr(self, b, name, st):
        if name in ('shape',):
            m = self.meta.get(b)
            if m and m['kind'] == 'arr':
                if m.get('shape') is not None:
                    return m['shape']
                c = self.content(b, st)
                if c.op == 'tuple':
                    return tup(const(len(c.args[0])))
            return mk('attr', b, 'shape')
        if name == 'T':
            return mk('attr', self.snap(b, st), 'T')
        if name == 'size' and self.content(b, st).op == 'tuple':
            return const(len(self.content(b, st).args[0]))
        m = self.meta.get(b)
        if m is not None and m.get('base') is not None and \
                name not in VALNAMES:
            return self.getattr(m['base'], name, st)
        return mk('bmeth', b, name)

    def clsmember(self, cls, name, st):
        if name in ('__name__',):
            return const(cls.name)
        f = cls.find(name)
        if f is not None:
            return mk('func', f.qual)
        fa = cls.find_attr(name)
        if fa is None:
            self.ev('undefattr', st, cls.qual, name)
            return mk('noattr', cls.name, name)
        c, expr = fa
        key = ('cls', c.qual, name)
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = mk('sym', 'rec')
            r = self.static_eval(c.mod, expr, c)
            if c.isenum and r.op == 'tuple' and len(r.args[0]) == 1:
                r = r.args[0][0]
            self.cache[key] = r
        return r

    def static_eval(self, mod, expr, cls=None):
        st = St({}, {}, X.Asm.of({}))
        fr = Frame(None)
        fr.fn = _StaticFn(mod, cls)
        self.frames.append(fr)
        rec, self.record = self.record, False
        nd = self.nobj
        try:
            v = self.eval(expr, st)
        finally:
            self.frames.pop()
            self.record = rec
        for k, w in st.mem.items():
            self.smem[k] = w
        for o in self.meta:
            if o.args[0] > nd:
                self._statics.add(o)
        return v

    def modmember(self, modname, name):
        r = self.p.resolve(modname, name)
        if r is None:
            return mk('ext', modname + '.' + name)
        return self.resolved(r, modname, name)

    def resolved(self, r, modname, name):
        k = r[0]
        if k == 'fn':
            return mk('func', r[1].qual)
        if k == 'cls':
            return mk('cls', r[1].qual)
        if k == 'mod':
            return mk('modref', r[1])
        if k == 'ext':
            return self.extmember(r[1])
        if k == 'expr':
            key = ('mod', r[2], name, id(r[1]))
            v = self.cache.get(key)
            if v is None:
                self.cache[key] = mk('sym', 'rec')
                v = self.static_eval(self.p.mods[r[2]], r[1])
                self.cache[key] = v
            return v
        raise KeyError(k)

    def extmember(self, full):
        if full.startswith('numpy'):
            full = 'np' + full[5:]
        for b in ('bitstruct.c', 'cbitstruct', 'bitstruct'):
            if full == b or full.startswith(b + '.'):
                full = 'bs' + full[len(b):]
                break
        if full in ('np.pi', 'math.pi'):
            return mk('sym', 'pi')
        if full in ('np.nan', 'math.nan', 'np.NaN'):
            return X.NAN
        if full in ('np.inf', 'math.inf', 'np.Inf'):
            return mk('inf', True)
        if full == 'np.newaxis':
            return X.NONE
        if full in ('np.e', 'math.e'):
            return mk('sym', 'e')
        return mk('ext', full)

    def setattr(self, b, name, v, st):
        if b.op == 'ite':
            self.cond_store(b, st, lambda x, s: self.setattr(x, name, v, s))
            return
        if b.op in ('modref', 'cls'):
            self.ev('clsstore', st, b, name, v)
        if b not in self.meta or b in self._statics:
            self.ev('attrstore', st, b, name, v)
        st.mem[(b, name)] = v

    # --------------------------------------------------------------- snapshots

    def snap(self, t, st, depth=0):
        """immutable value of t: fresh containers expanded"""
        if depth > 12:
            return mk('opq', 'deep', ())
        if t.op == 'obj' or t.op == 'ite' or t.op == 'tuple' or \
                t.op in ('concat', 'comp', 'idx', 'poly', 'attr', 'upd'):
            return self._snap(t, st, depth, {})
        return t

    def _snap(self, t, st, depth, memo):
        if depth > 25:
            return mk('opq', 'deep', ())
        r = memo.get(t)
        if r is not None:
            return r
        memo[t] = mk('opq', 'cyc', ())
        r = self._snap1(t, st, depth, memo)
        memo[t] = r
        return r

    def _snap1(self, t, st, depth, memo):
        op = t.op
        if op == 'obj':
            m = self.meta[t]
            k = m['kind']
            l = self.getmem(st, t, '$l')
            stores = self.getmem(st, t, '$st') or ()
            if l is not None:
                c = self.content(t, st)
                c = self._snap(c, st, depth+1, memo)
                return c
            d = m.get('dims') if k == 'arr' else None
            if d and len(d) == 1 and m.get('base') is None and \
                    isnum(d[0]) is not None and 0 < isnum(d[0]) <= 16:
                n = int(isnum(d[0]))
                if all(len(p) == 1 and isnum(p[0]) is not None and
                       0 <= isnum(p[0]) < n for p, _ in stores):
                    fill = m.get('fill', X.UNDEF)
                    return mk('tuple', tuple(self._snap(self.sread(
                        t, stores, (const(j),), fill, st), st, depth+1, memo)
                        for j in range(n)))
            if k in ('dict', 'arr', 'list'):
                ws = [mk('w', tup(*[self._snap(q, st, depth+1, memo)
                                    for q in p]),
                         self._snap(v, st, depth+1, memo))
                      for p, v in stores]
                ws = self.sort_stores(stores, ws)
                if k == 'dict':
                    if m.get('base') is not None:
                        return mk('dictv', self._snap(m['base'], st, depth+1,
                                                      memo), tuple(ws))
                    return mk('dictv', X.NONE, tuple(ws))
                b = m.get('base')
                if b is not None:
                    b = self._snap(b, st, depth+1, memo)
                    at = sorted((f, self._snap(v, st, depth+1, memo))
                                for (q, f), v in list(st.mem.items())
                                if q is t and not f.startswith('$'))
                    if at:
                        b = mk('inst', 'obj', tuple(
                            tup(const(f), v) for f, v in at), b)
                    if not ws:
                        return b
                    return mk('arrv', b, X.NONE, tuple(ws))
                return mk('arrv', m.get('fill', X.UNDEF),
                          m.get('shape') or X.NONE, tuple(ws))
            # instance
            cls = m.get('cls')
            at = []
            for (b, f), v in list(st.mem.items()):
                if b is t and not f.startswith('$'):
                    at.append((f, self._snap(v, st, depth+1, memo)))
            names = {f for f, _ in at}
            for (b, f), v in list(self.smem.items()):
                if b is t and not f.startswith('$') and f not in names:
                    at.append((f, self._snap(v, st, depth+1, memo)))
            at.sort(key=lambda x: x[0])
            return mk('inst', cls.name if cls else 'obj',
                      tuple(tup(const(f), v) for f, v in at),
                      m['base'] if m.get('base') is not None else X.NONE)
        if op in ('c', 'sym', 'bits', 'func', 'cls', 'ext', 'lv', 'nan',
                  'undef', 'modref'):
            return t
        root, p = self.rootpath(t)
        if p:
            stores = self.getmem(st, root, '$st') or ()
            if root in self.meta or stores:
                sub = [(q[len(p):], v) for q, v in stores
                       if len(q) > len(p) and q[:len(p)] == p]
                oth = [q for q, v in stores if not (
                    len(q) > len(p) and q[:len(p)] == p)
                    and not self.distinct(q, p)]
                m = self.meta.get(root)
                if not oth and m is not None:
                    ws = [mk('w', tup(*[self._snap(q, st, depth+1, memo)
                                        for q in pp_]),
                             self._snap(v, st, depth+1, memo))
                          for pp_, v in sub]
                    ws = self.sort_stores(sub, ws)
                    if self.getmem(st, root, '$l') is None and \
                            m.get('base') is None:
                        return mk('arrv', m.get('fill', X.UNDEF), X.NONE,
                                  tuple(ws))
        if not X.contains(t, lambda x: x.op == 'obj'):
            return t
        return X.rebuild(t, [
            self._snap(a, st, depth+1, memo) if isinstance(a, T) else
            self._snapt(a, st, depth, memo) if isinstance(a, tuple) else a
            for a in t.args])

    def _snapt(self, a, st, depth, memo):
        return tuple(self._snap(x, st, depth+1, memo) if isinstance(x, T) else
                     self._snapt(x, st, depth, memo)
                     if isinstance(x, tuple) else x for x in a)

    def sort_stores(self, stores, ws):
        if all(self.distinct(stores[i][0], stores[j][0])
               for i in range(len(stores)) for j in range(i)):
            return sorted(ws, key=lambda w: w.dg)
        return ws

    # --------------------------------------------------------------- execution

    def tick(self, node):
        self.nodes += 1
        if self.nodes > self.maxnodes:
            raise Limit('node budget')

    def block(self, stmts, st):
        """-> (terminals [(cond,kind,val,st)] in cascade order, next or None)"""
        outs = []
        for s in stmts:
            if st is None:
                break
            o, st = self.stmt(s, st)
            outs.extend(o)
        return outs, st

    def stmt(self, s, st):
        self.tick(s)
        if self.frames:
            self.frames[-1].line = getattr(s, 'lineno', 0)
        self.seen_nodes.add(s)
        h = getattr(self, 's_' + type(s).__name__, None)
        if h is None:
            self.unsup.append(('stmt ' + type(s).__name__, self.where()))
            return [], st
        keep, self.pending = self.pending, []
        try:
            o, nxt = h(s, st)
            pend = self.pending
        finally:
            self.pending = keep
        if not pend:
            return o, nxt
        # a call ended in an exception: the rest of the block is skipped
        ro, none = [], X.TRUE
        for rc, v, mem in pend:
            q = St(dict(st.env), mem, st.asm, st.pc)
            ro.append((rc, 'raise', v, q))
            none = X.conj(none, X.lnot(rc))
        if none is X.FALSE or nxt is None:
            return ro + o, None
        nxt.asm = X.assume(nxt.asm, none, True)
        return ro + o, nxt

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [], st
        v = self.eval(s.value, st)
        if v.op == 'exit':
            return [(X.TRUE, 'raise', v, st)], None
        return [], st

    def s_Pass(self, s, st):
        return [], st

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            r = self.p._imp(a.name if a.asname else a.name.split('.')[0])
            st.env[nm] = self.resolved(r, None, nm)
        return [], st

    def s_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            b = s.module or ''
            if b.startswith('cssrlib.'):
                st.env[nm] = self.modmember(b[8:], a.name)
            else:
                st.env[nm] = self.extmember(b + '.' + a.name)
        return [], st

    def s_Global(self, s, st):
        return [], st

    def s_Assert(self, s, st):
        return [], st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Fn(fr.fn.mod, None, s)
        f.qual = fr.fn.qual + '.' + s.name
        f.closure = dict(st.env)
        self.closures[f.qual] = f
        st.env[s.name] = mk('func', f.qual)
        return [], st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
            if isinstance(t, (ast.Attribute, ast.Subscript)) and \
                    self.record and self.viewexpr(s.value):
                self.ev('view', st, t.attr if isinstance(t, ast.Attribute)
                        else None, v)
        return [], st

    def viewexpr(self, e):
        """the expression (or the local it names) may be an array view"""
        if isinstance(e, ast.Name):
            fn = getattr(self.frames[-1].fn, "node", None) if self.frames \
                else None
            if fn is None:
                return False
            r = self.viewn.get(fn)
            if r is None:
                a = getattr(fn, 'args', None)
                r = self.viewn[fn] = {x.arg for x in a.args} if a else set()
                for n in ast.walk(fn):
                    if isinstance(n, ast.Assign) and isview(n.value):
                        r |= {t.id for t in n.targets
                              if isinstance(t, ast.Name)}
            return e.id in r
        return isview(e)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return [], st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, st, t)
            v = self.eval(s.value, st)
            if self.inplace(cur, s.op, v, st):
                return [], st
            if cur.op in ('attr', 'idx', 'sym', 'slice') and not \
                    self.isscalar(cur) and self.viewexpr(t):
                self.ev('augalias', st, t.id, cur)
            st.env[t.id] = self.binop(s.op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            cur = self.getattr(b, t.attr, st, t)
            v = self.eval(s.value, st)
            if self.inplace(cur, s.op, v, st):
                return [], st
            self.setattr(b, t.attr, self.binop(s.op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            cur = self.index(b, i, st)
            v = self.eval(s.value, st)
            if i.op == 'slice3' or i.op == 'tuple' and any(
                    x.op == 'slice3' for x in i.args[0]):
                nv = self.binop(s.op, cur, v, st)
                self.store_index(b, i, nv, st)
                return [], st
            if self.inplace(cur, s.op, v, st):
                return [], st
            self.store_index(b, i, self.binop(s.op, cur, v, st), st)
        return [], st

    def inplace(self, cur, op, v, st):
        """augmented assignment that mutates an existing container"""
        m = self.meta.get(cur)
        if m is None:
            mv = self.meta.get(v)
            if mv and mv.get('rep') and not st.mem.get((v, '$st')):
                v = mk('comp', mv['dims'][0], mv['fill'], X.TRUE,
                       mk('lv', mv['dims'][0], 0))
            if isinstance(op, ast.Add) and (
                    self.kind(v) == 'list' or v.op == 'comp') and \
                    cur.op in ('attr', 'idx') and not self.isstr(cur):
                extlib.method(self, cur, 'extend', [v], {}, st)
                return True
            return False
        if m['kind'] == 'list' and isinstance(op, ast.Add):
            self.extend(cur, v, st)
            return True
        if m['kind'] == 'arr':
            nv = self.binop(op, cur, v, st)
            if nv in self.meta:
                l = self.getmem(st, nv, '$l')
                if l is not None and l.op == 'tuple':
                    for k, x in enumerate(l.args[0]):
                        self.store_index(cur, const(k), x, st)
                    return True
            if self.getmem(st, cur, '$l') is not None:
                st.mem[(cur, '$l')] = self.snap(nv, st)
                st.mem.pop((cur, '$st'), None)
                return True
        return False

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = X.UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.store_index(b, i, X.UNDEF, st)
            elif isinstance(t, ast.Attribute):
                self.setattr(self.eval(t.value, st), t.attr, X.UNDEF, st)
        return [], st

    def s_Return(self, s, st):
        v = X.NONE if s.value is None else self.eval(s.value, st)
        return [(X.TRUE, 'return', v, st)], None

    def s_Break(self, s, st):
        return [(X.TRUE, 'break', X.NONE, st)], None

    def s_Continue(self, s, st):
        return [(X.TRUE, 'continue', X.NONE, st)], None

    def s_Raise(self, s, st):
        v = X.NONE if s.exc is None else self.eval(s.exc, st)
        return [(X.TRUE, 'raise', mk('exc', v), st)], None

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def cond(self, e, st):
        c = X.truth(self.truthval(self.eval(e, st), st))
        if c.ite and st.asm:
            c = X.restrict(c, st.asm)
        return c

    def truthval(self, v, st):
        if v.op == 'obj':
            c = self.content(v, st)
            if c is not v:
                if c.op == 'tuple':
                    return const(len(c.args[0]) > 0)
                return X.lnot(X.eq(self.t_len(c), X.ZERO))
            m = self.meta[v]
            if m['kind'] == 'inst':
                return X.TRUE
            if m['kind'] == 'dict' and not self.getmem(st, v, '$st') and \
                    m.get('base') is None:
                return X.FALSE
        if v.op == 'strcat':
            return X.TRUE
        return v

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        return self.branch(c, s.body, s.orelse, st)

    def branch(self, c, body, orelse, st):
        if c.op == 'c':
            return self.block(body if X.cval(c) else orelse, st)
        pc = st.pc
        s1, s2 = st.under(c), st.under(c, False)
        o1, n1 = self.block(body, s1)
        o2, n2 = self.block(orelse, s2)
        nc = X.lnot(c)
        outs = [(X.conj(c, x), k, v, q) for x, k, v, q in o1] + \
               [(X.conj(nc, x), k, v, q) for x, k, v, q in o2]
        if n1 is None:
            return outs, n2
        if n2 is None:
            return outs, n1
        asm = n1.asm.common(n2.asm)
        keep = tuple(x for x, y in zip(n1.pc, n2.pc) if x is y)
        return outs, self.merge_st(c, n1, n2, asm, keep)

    def s_Try(self, s, st):
        st0 = st.copy()
        n0 = len(self.events)
        self.extcalls = []
        o1, n1 = self.block(s.body, st)
        calls = self.extcalls
        self.extcalls = []
        raises = [x for x in o1 if x[1] == 'raise']
        o1 = [x for x in o1 if x[1] != 'raise']
        hs = []
        for h in s.handlers:
            nm = 'any' if h.type is None else ast.unparse(h.type).split('.')[-1]
            tag = mk('call', 'raises', (const(nm),) + tuple(
                self.snap(x, st0) for x in calls[-3:]))
            c = X.lnot(X.eq(tag, X.ZERO))
            sh = st0.under(c)
            if h.name:
                sh.env[h.name] = mk('exc', const(nm))
            o2, n2 = self.block(h.body, sh)
            hs.append((c, o2, n2))
        outs, nxt = [], None
        for c, o2, n2 in hs:
            outs += [(X.conj(c, x), k, v, q) for x, k, v, q in o2]
        outs += o1
        nxt = n1
        for c, o2, n2 in reversed(hs):
            if n2 is None:
                continue
            if nxt is None:
                nxt = n2
            else:
                nxt = self.merge_st(c, n2, nxt, st0.asm, st0.pc)
        if nxt is not None and s.orelse:
            o3, nxt = self.block(s.orelse, nxt)
            outs += o3
        if nxt is not None and s.finalbody:
            o3, nxt = self.block(s.finalbody, nxt)
            outs += o3
        return outs, nxt

    extcalls = []

    # ------------------------------------------------------------------- loops

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        return self.loop(s, it, st)

    def loop(self, s, it, st):
        n, elem, known = self.iteration(it, st)
        if known is not None:
            if len(known) <= UNROLL:
                if len(known) <= 4:
                    return self.unroll(s, known, st)
                sv = st.copy()
                nev, nun = len(self.events), len(self.unsup)
                ncl, npd = len(self.cells), len(self.pending)
                try:
                    return self.unroll(s, known, st)
                except Explode:
                    del self.cells[ncl:]
                    del self.pending[npd:]
                    del self.events[nev:]
                    del self.unsup[nun:]
                    st.env, st.mem, st.asm, st.pc = sv.env, sv.mem, sv.asm, \
                        sv.pc
            elem = self.linear(known)
        return self.summarise(s, n, elem, None, st)

    def linear(self, ks):
        """k-th element of a known sequence as a function of k"""
        if all(x.op == 'c' and isinstance(X.cval(x), (int, Fraction)) and
               not isinstance(X.cval(x), bool) for x in ks) and len(ks) > 1:
            v = [X.cval(x) for x in ks]
            d = v[1]-v[0]
            if all(b-a == d for a, b in zip(v, v[1:])):
                return lambda lv, s: X.add(const(v[0]), X.scale(lv, d))
        if all(x.op == 'tuple' for x in ks) and \
                len({len(x.args[0]) for x in ks}) == 1:
            fs = [self.linear([x.args[0][j] for x in ks])
                  for j in range(len(ks[0].args[0]))]
            return lambda lv, s: tup(*[f(lv, s) for f in fs])
        t = mk('tuple', tuple(ks))
        return lambda lv, s: self.t_idx(t, lv)

    def iteration(self, it, st):
        """-> (count term, elem(lv, st)->value, known list or None)"""
        op = it.op
        if op == 'obj':
            m = self.meta[it]
            if m['kind'] == 'dict':
                ks = self.dict_keys(it, st)
                if ks is not None:
                    return const(len(ks)), None, ks
                sn = self.snap(it, st)
                return mk('len', sn), \
                    (lambda lv, s: mk('idx', mk('keys', sn), lv)), None
            c = self.content(it, st)
            if c is not it:
                return self.iteration(c, st)
            d = m.get('dims')
            n = isnum(d[0]) if d and m['kind'] == 'arr' else None
            if n is not None and n <= 64:
                return const(n), None, [self.index(it, const(k), st)
                                        for k in range(int(n))]
        if op == 'tuple':
            return const(len(it.args[0])), None, list(it.args[0])
        if op == 'c' and isinstance(X.cval(it), str):
            return const(len(X.cval(it))), None, \
                [const(x) for x in X.cval(it)]
        if op == 'range':
            a, b, k = it.args
            na, nb, nk = isnum(a), isnum(b), isnum(k)
            if na is not None and nb is not None and nk:
                r = range(int(na), int(nb), int(nk))
                if len(r) <= UNROLL:
                    return const(len(r)), None, [const(x) for x in r]
            if nk == 1:
                n = X.sub(b, a)
            elif nk == -1:
                n = X.sub(a, b)
            else:
                n = mk('ceildiv', X.sub(b, a), k)
            return n, (lambda lv, s: X.add(a, X.mul(k, lv))), None
        if op == 'enum':
            n, e, kn = self.iteration(it.args[0], st)
            off = it.args[1]
            if kn is not None:
                return n, None, [tup(X.add(off, const(i)), x)
                                 for i, x in enumerate(kn)]
            return n, (lambda lv, s: tup(X.add(off, lv), e(lv, s))), None
        if op == 'zip':
            parts = [self.iteration(x, st) for x in it.args[0]]
            if all(p[2] is not None for p in parts):
                k = min(len(p[2]) for p in parts)
                return const(k), None, [tup(*[p[2][i] for p in parts])
                                        for i in range(k)]
            ns = [p[0] for p in parts]
            n = ns[0]
            for p in parts:
                if p[1] is not None:
                    n = p[0]
                    break

            def ez(lv, s):
                return tup(*[p[1](lv, s) if p[1] is not None else
                             self.t_idx(mk('tuple', tuple(p[2])), lv)
                             for p in parts])
            return n, ez, None
        if op == 'cls':
            c = self.p.classes[it.args[0]]
            ks = [self.clsmember(c, a, st) for a in c.attrs]
            return const(len(ks)), None, ks
        if op == 'items':
            d = it.args[0]
            if self.kind(d) == 'dict':
                ks = self.dict_keys(d, st)
                if ks is not None:
                    return const(len(ks)), None, \
                        [tup(k, self.index(d, k, st)) for k in ks]
            sd = self.snap(d, st)

            def ei(lv, s):
                k = mk('idx', mk('keys', sd), lv)
                return tup(k, self.index(d, k, s))
            return self.t_len(sd), ei, None
        if op == 'values':
            d = it.args[0]
            if self.kind(d) == 'dict':
                ks = self.dict_keys(d, st)
                if ks is not None:
                    return const(len(ks)), None, \
                        [self.index(d, k, st) for k in ks]
            sd = self.snap(d, st)
            return self.t_len(sd), (lambda lv, s: self.index(
                d, mk('idx', mk('keys', sd), lv), s)), None
        if op == 'keys':
            d = it.args[0]
            if self.kind(d) == 'dict':
                ks = self.dict_keys(d, st)
                if ks is not None:
                    return const(len(ks)), None, ks
            sd = self.snap(d, st)
            return self.t_len(sd), \
                (lambda lv, s: mk('idx', mk('keys', sd), lv)), None
        if op == 'comp' and it.args[2] is X.TRUE:
            n, body, g, lv0 = it.args
            return n, (lambda lv, s: X.subst(body, {lv0: lv})), None
        if it in self.files or (op == 'call' and it.args[0] in
                                ('open', 'gzip.open')):
            f = it

            def ef(lv, s):
                return self.readline(f, s)
            return mk('len', mk('file', f)), ef, None
        if op == 'ite' and it.args[1].op == 'tuple' and \
                it.args[2].op == 'tuple' and \
                len(it.args[1].args[0]) == len(it.args[2].args[0]):
            n = len(it.args[1].args[0])
            return const(n), None, [self.t_idx(it, const(k))
                                    for k in range(n)]
        if it.op == 'idx':
            root, p = self.rootpath(it)
            m = self.meta.get(root)
            if m is not None and m.get('dims') and len(m['dims']) > len(p):
                nn = isnum(m['dims'][len(p)])
                if nn is not None and nn <= 64:
                    return const(nn), None, [self.index(it, const(k), st)
                                             for k in range(int(nn))]
        n = self.t_len(self.snap(it, st))
        return n, (lambda lv, s: self.index(it, lv, s)), None

    files = set()

    def dict_keys(self, d, st):
        if self.meta[d].get('base') is not None:
            return None
        stores = self.getmem(st, d, '$st') or ()
        ks = []
        for p, v in stores:
            if p[0] not in ks:
                ks.append(p[0])
        if any(k.op == 'ite' or X.contains(k, lambda x: x.op in (
                'lv', 'bits', 'phi', 'mu')) for k in ks):
            return None
        out = []
        for k in ks:
            v = self.index(d, k, st)
            if v is X.UNDEF:
                continue
            if v.op == 'ite' and X.contains(v, lambda x: x is X.UNDEF):
                return None
            out.append(k)
        return out

    def unroll(self, s, known, st):
        pend = []        # (cond, 'break', state) cascade
        outs = []
        cur = st
        first = None
        grow = {}
        for j, v in enumerate(known):
            if cur is None:
                break
            t0 = len(X._TAB)
            b0, m0 = dict(cur.env), dict(cur.mem)
            self.assign(s.target, v, cur)
            o, n = self.block(s.body, cur)
            dt = len(X._TAB) - t0
            if j == 1:
                first = dt
            elif j > 1 and len(known) > 4 and dt > 4*first + 600:
                raise Explode()
            if len(known) > 4 and n is not None:
                g2 = {}
                for new, old in ((n.env, b0), (n.mem, m0)):
                    for k, w in new.items():
                        o_ = old.get(k)
                        if o_ is not None and w is not o_ and \
                                isinstance(w, X.T) and isinstance(o_, X.T) \
                                and w.ite and o_.ite and w.sz > o_.sz:
                            g2[k] = grow.get(k, 0) + 1
                            if g2[k] >= 2:
                                raise Explode()
                grow = g2
                if any(x[1] in ('break', 'return') and x[0].op != 'c'
                       for x in o):
                    raise Explode()
                if j == 1:
                    for k, w in n.mem.items():
                        if k[1] != '$st' or w is m0.get(k):
                            continue
                        old = m0.get(k) or ()
                        ps = [p for p, _ in w if p not in dict(old)]
                        if any(not self.distinct(p, q) for p in ps
                               for q, _ in old):
                            raise Explode()
            cont = [x for x in o if x[1] == 'continue']
            rest = [x for x in o if x[1] != 'continue']
            # cascade order matters only through exclusivity, which holds
            outs.extend(rest)
            for c, k, val, q in reversed(cont):
                n = q if n is None else self.join(c, q, n)
            cur = n
        if s.orelse and cur is not None:
            o, cur = self.block(s.orelse, cur)
            outs.extend(o)
        fin = []
        nxt = cur
        # breaks: join from the last to the first
        for c, k, val, q in reversed(outs):
            if k == 'break':
                nxt = q if nxt is None else self.join(c, q, nxt)
        # non-break terminals keep their order; conditions are exclusive
        fin = [x for x in outs if x[1] != 'break']
        return fin, nxt

    def join(self, c, a, b):
        keep = tuple(x for x, y in zip(a.pc, b.pc) if x is y)
        return self.merge_st(c, a, b, a.asm.common(b.asm), keep)

    def s_While(self, s, st):
        # constant loops are unrolled
        c = self.cond(s.test, st)
        outs = []
        cur = st
        k = 0
        pend = []
        st_save = st.copy()
        nev = len(self.events)
        while c.op == 'c' and k < UNROLL:
            if not X.cval(c):
                nxt = cur
                for cc, kk, val, q in reversed(outs):
                    if kk == 'break':
                        nxt = q if nxt is None else self.join(cc, q, nxt)
                return [x for x in outs if x[1] != 'break'], nxt
            o, n = self.block(s.body, cur)
            cont = [x for x in o if x[1] == 'continue']
            outs.extend(x for x in o if x[1] != 'continue')
            for cc, kk, val, q in reversed(cont):
                n = q if n is None else self.join(cc, q, n)
            cur = n
            if cur is None:
                nxt = None
                for cc, kk, val, q in reversed(outs):
                    if kk == 'break':
                        nxt = q if nxt is None else self.join(cc, q, nxt)
                return [x for x in outs if x[1] != 'break'], nxt
            if outs and k >= 1:
                break
            c = self.cond(s.test, cur)
            k += 1
        del self.events[nev:]
        return self.summarise(s, None, None, s.test, st_save)

    def seed_mod(self, body, st):
        names, attrs = set(), []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    if n.id in st.env:
                        names.add(n.id)
        return names

    def summarise(self, s, n, elem, test, st):
        depth = self.loopd
        self.loopd += 1
        try:
            return self._summarise(s, n, elem, test, st, depth)
        finally:
            self.loopd -= 1

    def _summarise(self, s, n, elem, test, st, depth):
        lv = mk('lv', n if n is not None else mk('sym', 'while'), depth)
        if n is not None and isnum(n) is not None and isnum(n) <= 0:
            return [], st
        mod = {}                 # key -> (init, phi)

        def addmod(key, init):
            mod[key] = (init, mk('phi', depth, len(mod), str(key)))

        for name in sorted(self.seed_mod(s.body, st)):
            if isinstance(getattr(s, 'target', None), (ast.Name, ast.Tuple)) \
                    and name in {x.id for x in ast.walk(s.target)
                                 if isinstance(x, ast.Name)}:
                continue
            v = st.env[name]
            if v in self.meta and self.meta[v]['kind'] != 'inst':
                # container bound to a name: its content is what evolves
                continue
            addmod(('v', name), v)
        nev = len(self.events)
        nun = len(self.unsup)
        for rnd in range(9):
            del self.events[nev:]
            del self.unsup[nun:]
            s0 = st.copy()
            s0.pc = st.pc + (mk('forall', lv),)
            for key, (init, phi) in mod.items():
                if key[0] == 'v':
                    s0.env[key[1]] = phi
                elif key[0] == 'm':
                    s0.mem[(key[1], key[2])] = phi
                elif key[0] == 'a':
                    stores = self.getmem(s0, key[1], '$st') or ()
                    s0.mem[(key[1], '$st')] = self.sput(stores, key[2], phi)
            base = s0.copy()
            res = self.run_body(s, lv, elem, test, s0)
            new = self.changed(base, res, mod, st, depth)
            if not new:
                break
            for key, init in new:
                addmod(key, init)
        else:
            self.opq('loop-unstable')
        end, alive, ret, rk = res
        return self.close_loop(s, n, lv, depth, st, base, end, alive, ret, rk,
                               mod, nev)

    def run_body(self, s, lv, elem, test, s0):
        """one abstract iteration -> (end state, alive cond, ret value, retk)
        """
        pre = None
        if test is not None:
            n0 = len(self.pending)
            c = self.cond(test, s0)
            del self.pending[n0:]
            if c.op == 'c' and not X.cval(c):
                return s0, X.FALSE, X.NONE, X.FALSE
            if c.op != 'c':
                pre = c
                entry = s0.under(c)
            else:
                entry = s0
        else:
            entry = s0
            self.assign(s.target, elem(lv, s0), s0)
        outs, nxt = self.block(s.body, entry)
        # cascade join of everything; $k: 0 next, 1 break, 2 return/raise
        kindt = {'continue': X.ZERO, 'break': X.ONE, 'return': const(2),
                 'raise': const(3)}
        cur, k, rv = nxt, (X.ZERO if nxt is not None else None), X.NONE
        for c, kd, v, q in reversed(outs):
            v = v if kd in ('return', 'raise') else X.NONE
            if cur is None:
                cur, k, rv = q, kindt[kd], v
            else:
                cur = self.join(c, q, cur)
                k = X.merge(c, kindt[kd], k)
                rv = X.merge(c, v, rv)
        if pre is not None:
            # the test failing leaves the loop without effect
            ex = s0
            cur = self.merge_st(pre, cur, ex, s0.asm, s0.pc)
            k = X.merge(pre, k, X.ONE)
            rv = X.merge(pre, rv, X.NONE)
        alive = X.eq(k, X.ZERO)
        rk = X.disj(X.eq(k, const(2)), X.eq(k, const(3)))
        return cur, alive, rv, rk

    def changed(self, base, res, mod, st, depth):
        end = res[0]
        new = []
        for name, v in end.env.items():
            b = base.env.get(name)
            if b is v or ('v', name) in mod:
                continue
            if b is None:
                continue         # first defined inside the loop
            new.append((('v', name), b))
        for k, v in end.mem.items():
            b = base.mem.get(k)
            if b is v:
                continue
            if k[1] == '$st':
                # loop-invariant locations become recurrences
                old = dict(b or self.smem.get(k) or ())
                for p, w in v:
                    if old.get(p) is w:
                        continue
                    if ('a', k[0], p) in mod:
                        continue
                    if any(X.contains(x, lambda y: y.op == 'lv' and
                                      y.args[1] >= depth or y.op == 'phi' and
                                      y.args[0] >= depth) for x in p) or \
                       X.contains(k[0], lambda y: y.op in ('lv', 'phi') and
                                  (y.args[1] if y.op == 'lv'
                                   else y.args[0]) >= depth):
                        continue
                    if k[0].op == 'obj' and k[0] in self.meta and \
                            (k[0], '$new') not in st.mem and \
                            (k[0], '$l') not in st.mem and \
                            (k[0], '$st') not in st.mem and \
                            k[0] not in self._statics:
                        continue  # allocated inside the loop
                    init = self.sread(k[0], self.getmem(st, k[0], '$st') or
                                      (), p, None, st)
                    new.append((('a', k[0], p), init))
                continue
            if ('m',) + k in mod:
                continue
            if k[0].op == 'obj' and (k[0], '$new') not in st.mem and \
                    (k[0], '$l') not in st.mem and \
                    (k[0], '$st') not in st.mem and \
                    k[0] not in self._statics:
                continue
            if X.contains(k[0], lambda y: y.op == 'lv' and y.args[1] >= depth
                          or y.op == 'phi' and y.args[0] >= depth):
                continue
            if b is None:
                b = self.smem.get(k)
            if b is None:
                if k[1].startswith('$'):
                    b = mk('lst', k[0]) if k[1] == '$l' else \
                        mk('sym', k[1]) if k[1] != '$pos' else X.ZERO
                elif k[0] in self.meta and self.meta[k[0]].get('base') is None:
                    b = X.UNDEF
                else:
                    b = self.init_attr(k[0], k[1])
            new.append((('m',) + k, b))
        return new

    def close_loop(self, s, n, lv, depth, st, base, end, alive, ret, rk, mod,
                   nev):
        nexts = {}
        for key, (init, phi) in mod.items():
            if key[0] == 'v':
                nx = end.env.get(key[1], X.UNDEF)
            elif key[0] == 'm':
                nx = end.mem.get((key[1], key[2]), phi)
            else:
                nx = self.sread(key[1], end.mem.get((key[1], '$st')) or (),
                                key[2], None, end)
            nexts[phi] = nx
        init = {phi: i for i, phi in mod.values()}
        sol, post = {}, {}
        hasbrk = alive is not X.TRUE
        N = n if n is not None else mk('sym', 'while')
        pending = dict(nexts)
        cnt = None

        def phis(t):
            return [x for x in X.leaves(t, lambda y: y.op == 'phi' and
                                        y.args[0] == depth)] if t.phi else []

        def haslv(t):
            return X.contains(t, lambda y: y is lv)

        # list contents compare through concat
        prog = True
        while prog and pending:
            prog = False
            for phi in list(pending):
                nx = X.subst(pending[phi], sol) if sol else pending[phi]
                pending[phi] = nx
                if nx is phi:
                    sol[phi] = init[phi]
                    post[phi] = init[phi]
                    del pending[phi]
                    prog = True
                    continue
                ps = phis(nx)
                if not ps:
                    prev = X.subst(nx, {lv: X.sub(lv, X.ONE)})
                    if not haslv(nx) and prev is init[phi]:
                        sol[phi] = init[phi]
                    else:
                        sol[phi] = X.ite(X.eq(lv, X.ZERO), init[phi], prev)
                    post[phi] = ('last', nx)
                    del pending[phi]
                    prog = True
                    continue
                if ps == [phi] and X.maybenum(nx) and X.maybenum(init[phi]):
                    # induction: next = phi + c
                    try:
                        d = X.sub(nx, phi)
                    except X.Big:
                        d = phi
                    if not phis(d):
                        if not haslv(d):
                            sol[phi] = X.add(init[phi], X.mul(d, lv))
                            post[phi] = ('ind', d)
                        else:
                            sol[phi] = X.add(init[phi], mk('psum', d, lv))
                            post[phi] = ('sum', d)
                        del pending[phi]
                        prog = True
                        continue
                if ps == [phi] and nx.op in ('concat', 'ite'):
                    r = self.append_pat(phi, nx)
                    if r is not None and not any(phis(x) for g, x in r):
                        sol[phi] = mk('concat', (init[phi], mk(
                            'acc', lv, tuple(tup(g, x) for g, x in r))))
                        post[phi] = ('app', r)
                        del pending[phi]
                        prog = True
                        continue
        if pending:
            self.solve_mu(pending, init, lv, depth, sol, post, alive)
        # substitute solutions everywhere
        for phi in sol:
            pass
        alive2 = X.subst(alive, sol) if alive.phi else alive
        ret2 = X.subst(ret, sol) if ret.phi else ret
        rk2 = X.subst(rk, sol) if rk.phi else rk
        if n is None or hasbrk:
            cnt = mk('iters', N if n is not None else mk('sym', 'while'),
                     alive2, lv)
        else:
            cnt = N
        memo = {}

        def sub(t):
            return X.subst(t, sol, memo) if t.phi else t
        last = X.sub(cnt, X.ONE)
        # when a break stops the loop at iteration cnt, its body was executed
        lastv = cnt if hasbrk else last

        def fin(t):
            """value after the loop of a per-iteration value"""
            t = sub(t)
            if not haslv(t):
                return t
            return X.subst(t, {lv: lastv})
        out = St({}, {}, st.asm, st.pc)
        nonempty = X.lt(X.ZERO, cnt) if not hasbrk else (
            X.lt(X.ZERO, N) if n is not None else X.TRUE)
        for name, v in end.env.items():
            key = ('v', name)
            if key in mod:
                phi = mod[key][1]
                out.env[name] = self.post_val(phi, init[phi], post, cnt, lv,
                                              hasbrk, alive2, fin, nonempty,
                                              sub, nexts)
            elif name in base.env and base.env[name] is v:
                out.env[name] = v
            else:
                v2 = fin(v)
                b = st.env.get(name, X.UNDEF)
                out.env[name] = v2 if b is v2 else X.ite(nonempty, v2, b)
        for k, v in end.mem.items():
            key = ('m',) + k
            if k[1] == '$st':
                o = []
                old = dict(st.mem.get(k) or ())
                ob = dict(base.mem.get(k) or ())
                root = sub(k[0])
                for p, w in v:
                    if ('a', k[0], p) in mod:
                        phi = mod[('a', k[0], p)][1]
                        w2 = self.post_val(phi, init[phi], post, cnt, lv,
                                           hasbrk, alive2, fin, nonempty, sub,
                                           nexts)
                        if w2 is init[phi] and p not in old:
                            continue
                        o.append((p, w2))
                        continue
                    if ob.get(p) is w:
                        o.append((p, w))
                        continue
                    p2 = tuple(sub(x) for x in p)
                    o.append((p2, sub(w)))
                    if depth == 0 and k[0].op == 'obj' and \
                            k[0] not in self._statics:
                        self.cells.append((s, p2, o[-1][1]))
                out.mem[(root, '$st')] = tuple(o)
            elif key in mod:
                phi = mod[key][1]
                out.mem[k] = self.post_val(phi, init[phi], post, cnt, lv,
                                           hasbrk, alive2, fin, nonempty, sub,
                                           nexts)
            elif st.mem.get(k) is v:
                out.mem[k] = v
            else:
                out.mem[(sub(k[0]), k[1])] = sub(v) if isinstance(v, T) else v
        for k, v in st.mem.items():
            out.mem.setdefault(k, v)
        # events of the body
        for j in range(nev, len(self.events)):
            kd, pc, wh, args = self.events[j]
            self.events[j] = (kd, tuple(sub(x) for x in pc), wh, tuple(
                sub(x) if isinstance(x, T) else
                tuple(sub(y) if isinstance(y, T) else y for y in x)
                if isinstance(x, tuple) else x for x in args))
        outs = []
        if rk2 is not X.FALSE:
            c = X.lnot(X.eq(mk('exists', lv, rk2), X.ZERO))
            sr = out.copy()
            outs.append((c, 'return', mk('first', lv, rk2, ret2), sr))
            out = out.under(c, False)
            out.pc = st.pc
        if getattr(s, 'orelse', None):
            o2, out = self.block(s.orelse, out)
            outs += o2
        return outs, out

    def append_pat(self, phi, nx):
        """phi -> guarded appended items [(guard, item)...] in order"""
        if nx is phi:
            return []
        if nx.op == 'concat' and nx.args[0][0] is phi:
            r = []
            for x in nx.args[0][1:]:
                r.append((X.TRUE, x))
            return r
        if nx.op == 'ite':
            a = self.append_pat(phi, nx.args[1])
            b = self.append_pat(phi, nx.args[2])
            if a is None or b is None:
                return None
            c = nx.args[0]
            # common suffix/prefix not merged: guards disjoint
            if a == b:
                return a
            pre = []
            while a and b and a[0] == b[0]:
                pre.append(a[0])
                a, b = a[1:], b[1:]
            return pre + [(X.conj(c, g), x) for g, x in a] + \
                [(X.conj(X.lnot(c), g), x) for g, x in b]
        return None

    def post_val(self, phi, init, post, cnt, lv, hasbrk, alive, fin, nonempty,
                 sub, nexts):
        p = post[phi]
        if isinstance(p, T):
            return p
        k = p[0]
        if hasbrk:
            v = sub(nexts[phi])
            # after the last executed iteration
            v = X.subst(v, {lv: cnt}) if X.contains(v, lambda y: y is lv) \
                else v
            return v if v is init else X.ite(nonempty, v, init)
        if k == 'last':
            v = fin(p[1])
            return v if v is init else X.ite(nonempty, v, init)
        if k == 'ind':
            return X.add(init, X.mul(sub(p[1]), cnt))
        if k == 'sum':
            return X.add(init, mk('psum', sub(p[1]), mk('sumto', cnt, lv)))
        if k == 'app':
            r = [(sub(g), sub(x)) for g, x in p[1]]
            if len(r) == 1 and r[0][0] is X.TRUE and r[0][1].op == 'tuple' \
                    and len(r[0][1].args[0]) == 1:
                cm = mk('comp', cnt, r[0][1].args[0][0], X.TRUE, lv)
            else:
                cm = mk('acc', mk('sumto', cnt, lv),
                        tuple(tup(g, x) for g, x in r))
            if init.op == 'tuple' and not init.args[0]:
                return cm
            return mk('concat', (init, cm))
        if k == 'mu':
            v = fin(nexts[phi])
            return v if v is init else X.ite(nonempty, v, init) \
                if not p[1] else v
        raise KeyError(k)

    def solve_mu(self, pending, init, lv, depth, sol, post, alive):
        """general recurrences: canonical mutually recursive terms"""
        todo = dict(pending)

        def deps(t):
            return {x for x in X.leaves(t, lambda y: y.op == 'phi' and
                                        y.args[0] == depth)} if t.phi else \
                set()
        clos = {}
        for phi in todo:
            seen, stack = set(), [phi]
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in todo:
                    stack.extend(deps(todo[x]))
            clos[phi] = seen
        # canonical labels by iterated refinement
        lab = {phi: mk('sym', 'r0') for phi in todo}
        for rnd in range(len(todo)+1 if len(todo) < 6 else 6):
            new = {}
            for phi in todo:
                m = {q: lab[q] for q in todo}
                body = X.subst(todo[phi], m)
                new[phi] = mk('sym', 'r%s' % mk('lab', init[phi], body).dg)
            if len(set(new.values())) == len(set(lab.values())) and rnd > 1:
                lab = new
                break
            lab = new
        for phi in todo:
            group = sorted((q for q in todo if q in clos[phi]),
                           key=lambda q: lab[q].dg)
            m = {q: mk('rec', depth, k) for k, q in enumerate(group)}
            bodies = tuple(tup(init[q], X.subst(todo[q], m)) for q in group)
            pos = group.index(phi)
            sol[phi] = mk('mu', lv, pos, bodies)
            post[phi] = ('mu', False)

    # -------------------------------------------------------------- assignment

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                self.opq('starred'), st)
                return
            vals = self.unpack(v, n, st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval(t.slice, st)
            self.store_index(b, i, v, st)

    def unpack(self, v, n, st):
        if v.op == 'ite':
            a = self.unpack(v.args[1], n, st)
            b = self.unpack(v.args[2], n, st)
            return [X.merge(v.args[0], x, y) for x, y in zip(a, b)]
        c = self.content(v, st)
        if c.op == 'tuple':
            if len(c.args[0]) != n:
                self.ev('arity', st, const(n), const(len(c.args[0])))
                return [mk('idxerr', c, const(k)) if k >= len(c.args[0]) else
                        c.args[0][k] for k in range(n)]
            return list(c.args[0])
        if c.op == 'c' or c.op in ('bits',):
            if c.op == 'bits' or not isinstance(X.cval(c), (str, bytes)):
                self.ev('arity', st, const(n), c)
                return [mk('idxerr', c, const(k)) for k in range(n)]
        if c.op == 'bits':
            self.ev('arity', st, const(n), c)
        return [self.index(v, const(k), st) for k in range(n)]

    # -------------------------------------------------------------- expressions

    def load(self, name, st, node):
        v = st.env.get(name)
        if v is not None:
            if v.ite and st.asm:
                v = X.restrict(v, st.asm)
            if (v is X.UNDEF or v.op == 'ite' and self.mayundef(v)) and \
                    not self.isparam(name):
                self.ev('undef', st, name, v)
            return v
        fr = self.frames[-1]
        fn = fr.fn
        if fn.cls is not None and isinstance(fn, _StaticFn):
            fa = fn.cls.attrs.get(name)
            if fa is not None:
                return self.clsmember(fn.cls, name, st)
        if getattr(fn, 'closure', None) and name in fn.closure:
            return fn.closure[name]
        r = self.p.resolve(fn.mod.name, name)
        if r is not None:
            return self.resolved(r, fn.mod.name, name)
        if name in BUILTINS:
            return mk('ext', 'builtins.' + name)
        if name == '__name__':
            return const(fn.mod.name)
        if name == '__file__':
            return mk('sym', '__file__')
        self.ev('undefname', st, name)
        return mk('noname', name)

    def isparam(self, name):
        a = self.frames[-1].fn.node.args
        return any(x.arg == name
                   for x in a.posonlyargs + a.args + a.kwonlyargs)

    def mayundef(self, v):
        return X.contains(v, lambda x: x is X.UNDEF) and \
            self.topundef(v)

    def topundef(self, v):
        if v.op == 'ite':
            return self.topundef(v.args[1]) or self.topundef(v.args[2])
        return v is X.UNDEF

    def eval(self, e, st):
        self.tick(e)
        h = getattr(self, 'e_' + type(e).__name__, None)
        if h is None:
            return self.opq('expr ' + type(e).__name__)
        try:
            return h(e, st)
        except X.Big:
            return self.opq('big ' + type(e).__name__)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.load(e.id, st, e)

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        return self.index(b, i, st)

    def e_Slice(self, e, st):
        f = (lambda x: X.NONE if x is None else self.eval(x, st))
        return mk('slice3', f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        return mk('tuple', tuple(self.elts(e.elts, st)))

    def elts(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.content(self.eval(x.value, st), st)
                if v.op == 'tuple':
                    out.extend(v.args[0])
                else:
                    out.append(mk('star', v))
            else:
                out.append(self.eval(x, st))
        return out

    def e_List(self, e, st):
        return self.newlist(st, self.elts(e.elts, st))

    def e_Set(self, e, st):
        return self.newlist(st, self.elts(e.elts, st))

    def e_Dict(self, e, st):
        o = self.new('dict', 'dict')
        st.mem[(o, '$st')] = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            cur = st.mem[(o, '$st')]
            st.mem[(o, '$st')] = cur + (((kv,), vv),) if not any(
                q == (kv,) for q, _ in cur) else self.sput(cur, (kv,), vv)
            if any(q == (kv,) for q, _ in cur):
                self.ev('dupkey', st, kv)
        return o

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, st)
                    spec = X.cval(spec) if spec.op == 'c' else X.pp(spec)
                if v.conversion == 114:
                    spec = '!r' + spec
                parts.append(self.fmt(x, spec, st))
        return self.strcat(parts)

    def fmt(self, x, spec, st):
        x = self.content(x, st)
        if x.op == 'ite' and (x.args[1].op == 'c' or x.args[2].op == 'c'):
            return X.ite(x.args[0], self.fmt(x.args[1], spec, st),
                         self.fmt(x.args[2], spec, st))
        if x.op == 'c' and not isinstance(X.cval(x), Fraction):
            try:
                return const(format(X.cval(x), spec))
            except (ValueError, TypeError):
                pass
        if x.op == 'strcat' and spec == '':
            return x
        return mk('fmt', x, spec)

    def strcat(self, parts):
        out = []
        for p in parts:
            if p.op == 'strcat':
                out.extend(p.args[0])
            else:
                out.append(p)
        o2 = []
        for p in out:
            if p.op == 'c' and X.cval(p) == '':
                continue
            if o2 and p.op == 'c' and o2[-1].op == 'c' and \
                    isinstance(X.cval(p), str) and \
                    isinstance(X.cval(o2[-1]), str):
                o2[-1] = const(X.cval(o2[-1]) + X.cval(p))
            else:
                o2.append(p)
        if not o2:
            return const('')
        if len(o2) == 1 and o2[0].op in ('c', 'fmt', 'strcat'):
            return o2[0]
        return mk('strcat', tuple(o2))

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c.op == 'c':
            return self.eval(e.body if X.cval(c) else e.orelse, st)
        s1, s2 = st.under(c), st.under(c, False)
        n0 = len(self.pending)
        a = self.eval(e.body, s1)
        self.guardp(n0, c)
        n0 = len(self.pending)
        b = self.eval(e.orelse, s2)
        self.guardp(n0, X.lnot(c))
        m = self.merge_st(c, s1, s2, st.asm, st.pc)
        st.mem = m.mem
        for k in m.env:
            st.env[k] = m.env[k]
        return X.merge(c, a, b)

    def guardp(self, n0, c):
        """exceptional ends recorded from n0 on happen only under c"""
        self.pending[n0:] = [(X.conj(c, rc), v, m)
                             for rc, v, m in self.pending[n0:]]

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = st.asm
        pc = st.pc
        for x in e.values:
            n0 = len(self.pending)
            v = self.eval(x, st)
            if len(self.pending) > n0:
                self.guardp(n0, X.conj(*[q if isand else X.lnot(q)
                                         for q, _ in vals]))
            c = X.truth(self.truthval(v, st))
            if c.ite and st.asm:
                c = X.restrict(c, st.asm)
            vals.append((c, v))
            if c.op == 'c' and X.cval(c) != isand:
                break
            st.asm = X.assume(st.asm, c, isand)
            st.pc = st.pc + ((c if isand else X.lnot(c)),)
        st.asm = cur
        st.pc = pc
        cs = [c for c, _ in vals]
        if all(c is v or c.op == 'c' and v.op == 'c' and
               isinstance(X.cval(v), bool) for c, v in vals):
            return X.conj(*cs) if isand else X.disj(*cs)
        if all(v.op in X.ATOMS + ('not', 'and', 'or', 'c', 'ite')
               for c, v in vals):
            return X.conj(*cs) if isand else X.disj(*cs)
        # value semantics
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = X.ite(c, r, v) if isand else X.ite(c, v, r)
        if self.boolctx(e):
            return X.conj(*cs) if isand else X.disj(*cs)
        return r

    def boolctx(self, e):
        return True

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return X.lnot(X.truth(self.truthval(v, st)))
        if isinstance(e.op, ast.USub):
            return self.binop(ast.Mult(), const(-1), v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        n = isnum(v)
        if n is not None and n.denominator == 1:
            return const(~int(n))
        if v.op in X.ATOMS + ('not', 'and', 'or'):
            return X.lnot(v)
        return mk('invert', v)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st)

    def vecs(self, a, b, st):
        """known vectors for elementwise arithmetic"""
        ka, kb = self.kind(a), self.kind(b)
        la = self.content(a, st) if ka == 'arr' else None
        lb = self.content(b, st) if kb == 'arr' else None
        va = la.args[0] if la is not None and la.op == 'tuple' else None
        vb = lb.args[0] if lb is not None and lb.op == 'tuple' else None
        if va is None and ka == 'arr':
            va = self.small(a, st)
        if vb is None and kb == 'arr':
            vb = self.small(b, st)
        return va, vb

    def small(self, a, st):
        d = self.meta[a].get('dims')
        if d and len(d) == 1 and isnum(d[0]) is not None and isnum(d[0]) <= 64:
            return tuple(self.index(a, const(k), st)
                         for k in range(int(isnum(d[0]))))
        return None

    def binop(self, op, a, b, st):
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b, st)
        ka, kb = self.kind(a), self.kind(b)
        if ka == 'arr' or kb == 'arr':
            va, vb = self.vecs(a, b, st)
            if va is not None and vb is not None and len(va) == len(vb):
                return self.newlist(st, [self.binop(op, x, y, st)
                                         for x, y in zip(va, vb)], 'arr')
            if va is not None and self.isscalar(b):
                return self.newlist(st, [self.binop(op, x, b, st)
                                         for x in va], 'arr')
            if vb is not None and self.isscalar(a):
                return self.newlist(st, [self.binop(op, a, y, st)
                                         for y in vb], 'arr')
            if va is not None and kb is None and self.vecnorm(b):
                return self.newlist(st, [self.binop(op, x, b, st)
                                         for x in va], 'arr')
        if ka == 'list' or kb == 'list' or a.op == 'tuple' or b.op == 'tuple':
            r = self.listop(op, a, b, st)
            if r is not None:
                return r
        if a in self.meta or a.op == 'idx':
            a = self.snap(a, st)
        if b in self.meta or b.op == 'idx':
            b = self.snap(b, st)
        try:
            return self.arith(op, a, b, st)
        except X.Big:
            return mk('big', type(op).__name__, a, b)

    def vecnorm(self, b):
        return b.op == 'call' and b.args[0] in ('norm',) or \
            b.op == 'poly' and all(self.vecnorm(a) or self.isscalar(a)
                                   for m, _ in b.args[0] for a, _ in m)

    def listop(self, op, a, b, st):
        if isinstance(op, ast.Mult):
            if b in self.meta and not (a in self.meta) and a.op != 'tuple':
                a, b = b, a
            l = self.content(a, st)
            n = isnum(b)
            if l.op == 'tuple' and n is not None and self.kind(a) != 'arr':
                el = l.args[0]*int(n)
                return mk('tuple', el) if a.op == 'tuple' else \
                    self.newlist(st, el)
            if l.op == 'tuple' and len(l.args[0]) == 1 and \
                    self.kind(a) == 'list':
                o = self.new('arr', 'arr', fill=l.args[0][0], nd=1,
                             shape=tup(b), dims=(b,), rep=True)
                st.mem[(o, '$st')] = ()
                return o
            return None
        if isinstance(op, ast.Add) and (self.kind(a) == 'list' or
                                        self.kind(b) == 'list' or
                                        a.op == 'tuple' and b.op == 'tuple'):
            x, y = self.content(a, st), self.content(b, st)
            r = self.concat(x, y)
            if a.op == 'tuple':
                return r
            o = self.new('list', 'list')
            st.mem[(o, '$l')] = r
            return o
        return None

    def concat(self, *parts):
        out = []
        for p in parts:
            if p.op == 'concat':
                out.extend(p.args[0])
            else:
                out.append(p)
        o2 = []
        for p in out:
            if p.op == 'tuple' and not p.args[0]:
                continue
            if o2 and p.op == 'tuple' and o2[-1].op == 'tuple':
                o2[-1] = mk('tuple', o2[-1].args[0] + p.args[0])
            else:
                o2.append(p)
        if not o2:
            return mk('tuple', ())
        if len(o2) == 1:
            return o2[0]
        return mk('concat', tuple(o2))

    def arith(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if self.isstr(a) or self.isstr(b):
                return self.strcat([a, b])
            if a.op in ('comp', 'concat', 'slice') and b.op in (
                    'comp', 'concat', 'tuple', 'slice'):
                return self.concat(a, b)
            if self.isbytes(a) or self.isbytes(b):
                return self.concat(self.content(a, st), self.content(b, st))
            return X.add(self.num(a), self.num(b))
        if isinstance(op, ast.Sub):
            return X.sub(self.num(a), self.num(b))
        if isinstance(op, ast.Mult):
            if self.isstr(a) or self.isstr(b):
                if not self.isstr(a):
                    a, b = b, a
                n = isnum(b)
                if a.op == 'c' and n is not None:
                    return const(X.cval(a)*int(n))
                return mk('strrep', a, b)
            return X.mul(self.num(a), self.num(b))
        if isinstance(op, ast.Div):
            return X.div(self.num(a), self.num(b))
        if isinstance(op, ast.Pow):
            n = isnum(b)
            x = isnum(a)
            if n is not None and n.denominator == 1 and abs(n) <= 6:
                if x is not None:
                    return const(x**int(n)) if x or n >= 0 else \
                        mk('inv', X.ZERO)
                return X.powi(self.num(a), int(n))
            if x == 2:
                return X.shl(X.ONE, b)
            if n is not None and x is not None and n.denominator == 1:
                return const(x**int(n))
            return mk('pow', a, b)
        if isinstance(op, ast.FloorDiv):
            return X.floordiv(a, b)
        if isinstance(op, ast.Mod):
            if self.isstr(a):
                return self.percent(a, b, st)
            return X.mod(a, b)
        if isinstance(op, ast.LShift):
            return X.shl(a, b)
        if isinstance(op, ast.RShift):
            return X.shr(a, b)
        if isinstance(op, ast.BitAnd):
            if self.iscond(a) and self.iscond(b):
                return X.conj(a, b)
            return X.band(a, b)
        if isinstance(op, ast.BitOr):
            if self.iscond(a) and self.iscond(b):
                return X.disj(a, b)
            return X.bor(a, b)
        if isinstance(op, ast.BitXor):
            return X.bor(a, b, 'bxor')
        return mk('op', type(op).__name__, a, b)

    def iscond(self, t):
        return t.op in X.ATOMS + ('not', 'and', 'or') or \
            t.op == 'c' and isinstance(X.cval(t), bool)

    def num(self, t):
        if t.op == 'c' and isinstance(X.cval(t), bool):
            return const(int(X.cval(t)))
        return t

    def isstr(self, t):
        return t.op in ('strcat', 'strrep', 'fmt') or t.op == 'c' and \
            isinstance(X.cval(t), (str, bytes)) or t.op == 'ite' and \
            (self.isstr(t.args[1]) or self.isstr(t.args[2])) or \
            t.op == 'call' and t.args[0] in STRFN

    def isbytes(self, t):
        return t.op in ('pack', 'bytes', 'concat') or t.op == 'ite' and \
            (self.isbytes(t.args[1]) or self.isbytes(t.args[2])) or \
            t.op == 'call' and t.args[0] in BYTEFN or \
            t.op == 'slice' and self.isbytes(t.args[0])

    def percent(self, a, b, st):
        if a.op != 'c':
            return mk('op', '%', a, b)
        import re
        s = X.cval(a)
        args = list(b.args[0]) if b.op == 'tuple' else [b]
        parts = []
        pos = 0
        for m in re.finditer(r'%([-+ 0#]*)(\d*)(\.\d+)?([a-zA-Z%])', s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                parts.append(const('%'))
                continue
            if not args:
                break
            fl, w, pr, ty = m.groups()
            spec = ('<' if '-' in fl else ('>' if ty == 's' and w else '')) + \
                ('+' if '+' in fl else '') + (' ' if ' ' in fl else '') + \
                ('0' if '0' in fl else '') + w + (pr or '') + \
                ('' if ty in ('s', 'r') else ty)
            parts.append(self.fmt(args.pop(0), spec, st))
        parts.append(const(s[pos:]))
        return self.strcat(parts)

    def matmul(self, a, b, st):
        va, vb = self.vecs(a, b, st)
        if va is not None and vb is not None and len(va) == len(vb):
            va = [self.snap(x, st) for x in va]
            vb = [self.snap(x, st) for x in vb]
            if not any(x.op in ('tuple', 'arrv', 'comp', 'acc', 'obj')
                       for x in va + vb):
                r = X.ZERO
                for p, q in zip(va, vb):
                    r = X.add(r, X.mul(p, q))
                return r
        return mk('matmul', self.snap(a, st), self.snap(b, st))

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, st)
            cs.append(self.compare(op, l, rv, st))
            l = rv
        return cs[0] if len(cs) == 1 else X.conj(*cs)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b, st)
            return c if isinstance(op, ast.In) else X.lnot(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a.op == 'obj' and b.op == 'c' or b.op == 'obj' and a.op == 'c':
                c = X.FALSE
            elif a.op == 'obj' and b.op == 'obj':
                c = const(a is b)
            else:
                c = X.eq(a, b)
            return c if isinstance(op, ast.Is) else X.lnot(c)
        if (a.op == 'obj') != (b.op == 'obj'):
            x, y = (a, b) if a.op == 'obj' else (b, a)
            if y.op == 'c' and (X.cval(y) is None or
                                isinstance(X.cval(y), (str, bytes))):
                return const(isinstance(op, ast.NotEq))
        sa, sb = a, b
        if a.op in ('obj', 'idx', 'tuple'):
            sa = self.snap(a, st)
        if b.op in ('obj', 'idx', 'tuple'):
            sb = self.snap(b, st)
        if isinstance(op, ast.Eq):
            return X.eq(sa, sb)
        if isinstance(op, ast.NotEq):
            return X.lnot(X.eq(sa, sb))
        if X.NAN in (sa, sb):
            return X.FALSE
        if isinstance(op, ast.Lt):
            return X.lt(sa, sb)
        if isinstance(op, ast.LtE):
            return X.lt(sa, sb, True)
        if isinstance(op, ast.Gt):
            return X.lt(sb, sa)
        if isinstance(op, ast.GtE):
            return X.lt(sb, sa, True)
        return mk('cmp', type(op).__name__, sa, sb)

    def contains(self, x, c, st):
        if c.op == 'ite':
            return X.ite(c.args[0], self.contains(x, c.args[1], st),
                         self.contains(x, c.args[2], st))
        if c.op == 'keys':
            c = c.args[0]
        m = self.meta.get(c)
        if m is not None and m['kind'] == 'dict':
            stores = self.getmem(st, c, '$st') or ()
            r = X.FALSE
            if m.get('base') is not None:
                r = self.contains(x, m['base'], st)
            for p, v in stores:
                e = X.eq(p[0], x)
                d = self.isdef(v) if len(p) == 1 else X.TRUE
                r = X.ite(e, d, r)
            return r
        if c.op == 'cls':
            return mk('in', x, c)
        v = self.content(c, st)
        if v.op == 'tuple':
            el = v.args[0]
            if all(y.op != 'star' for y in el):
                if len(el) <= 150:
                    return X.disj(*[X.eq(self.snap(x, st), self.snap(y, st))
                                    for y in el])
        if v.op == 'c' and isinstance(X.cval(v), str) and x.op == 'c':
            return const(X.cval(x) in X.cval(v))
        if v.op == 'c' and isinstance(X.cval(v), str) and \
                x.op in ('idx',) and len(X.cval(v)) < 40:
            # one-character membership
            return X.disj(*[X.eq(x, const(ch)) for ch in X.cval(v)])
        if v.op == 'range' and isnum(v.args[2]) == 1:
            return X.conj(X.lt(v.args[0], x, True), X.lt(x, v.args[1]))
        root, p = self.rootpath(c)
        stores = self.getmem(st, root, '$st') or ()
        r = mk('in', self.snap(x, st), v)
        for q, w in stores:
            if len(q) > len(p) and q[:len(p)] == p:
                e = X.eq(q[len(p)], x)
                d = self.isdef(w) if len(q) == len(p)+1 else X.TRUE
                r = X.ite(e, d, r)
            elif len(q) <= len(p) and q == p[:len(q)]:
                r = self.contains(x, self.read_path(w, p[len(q):], st), st)
            elif not self.distinct(q, p) and len(q) <= len(p):
                e = X.conj(*[X.eq(a, b) for a, b in zip(q, p)])
                r = X.ite(e, self.contains(x, self.read_path(
                    w, p[len(q):], st), st), r)
        return r

    def isdef(self, v):
        return X.isdef(v)

    # ---------------------------------------------------------- comprehensions

    def e_ListComp(self, e, st):
        v = self.comp(e, e.generators, st, lambda s: self.eval(e.elt, s))
        if v.op == 'tuple':
            return self.newlist(st, v.args[0])
        o = self.new('list', 'list')
        st.mem[(o, '$l')] = v
        return o

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        v = self.comp(e, e.generators, st, lambda s: tup(
            self.eval(e.key, s), self.eval(e.value, s)))
        o = self.new('dict', 'dict')
        st.mem[(o, '$st')] = ()
        if v.op == 'tuple':
            for x in v.args[0]:
                self.store_index(o, x.args[0][0], x.args[0][1], st)
            return o
        return mk('dictc', v)

    def comp(self, e, gens, st, body):
        g = gens[0]
        it = self.eval(g.iter, st)
        n, elem, known = self.iteration(it, st)
        saved = dict(st.env)
        np_ = len(self.pending)
        try:
            if known is not None and len(known) <= UNROLL:
                out = []
                for x in known:
                    self.assign(g.target, x, st)
                    c = X.conj(*[self.cond(q, st) for q in g.ifs])
                    if c is X.FALSE:
                        continue
                    if len(gens) > 1:
                        v = self.comp(e, gens[1:], st, body)
                    else:
                        v = mk('tuple', (body(st),))
                    if c is X.TRUE:
                        out.append(v)
                    else:
                        out.append(X.ite(c, v, mk('tuple', ())))
                return self.concat(*out) if out else mk('tuple', ())
            depth = self.loopd
            self.loopd += 1
            try:
                lv = mk('lv', n, depth)
                x = elem(lv, st) if elem is not None else \
                    self.t_idx(mk('tuple', tuple(known)), lv)
                self.assign(g.target, x, st)
                c = X.conj(*[self.cond(q, st) for q in g.ifs])
                if len(gens) > 1:
                    v = self.comp(e, gens[1:], st, body)
                    return mk('acc', mk('sumto', n, lv), (tup(c, v),))
                v = self.snap(body(st), st)
                if c is X.TRUE:
                    return mk('comp', n, v, X.TRUE, lv)
                return mk('acc', mk('sumto', n, lv),
                          (tup(c, mk('tuple', (v,))),))
            finally:
                self.loopd -= 1
        finally:
            st.env = saved
            del self.pending[np_:]

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[
            ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
            decorator_list=[], lineno=e.lineno, col_offset=0)
        f = Fn(fr.fn.mod, None, node)
        f.qual = fr.fn.qual + '.<lambda%d>' % len(self.closures)
        f.closure = dict(st.env)
        self.closures[f.qual] = f
        return mk('func', f.qual)

    def e_Starred(self, e, st):
        return mk('star', self.content(self.eval(e.value, st), st))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    # ------------------------------------------------------------------- calls

    def e_Call(self, e, st):
        line = self.frames[-1].line
        f = self.callee(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.content(self.eval(a.value, st), st)
                if v.op == 'tuple':
                    args.extend(v.args[0])
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw['**'] = self.eval(k.value, st)
            else:
                kw[k.arg] = self.eval(k.value, st)
        r = self.call(f, args, kw, st, e)
        self.frames[-1].line = line
        return r

    def callee(self, fe, st):
        if isinstance(fe, ast.Name) and fe.id == 'super' and \
                'super' not in st.env:
            return mk('ext', 'builtins.super')
        return self.eval(fe, st)

    superinfo = {}

    def call(self, f, args, kw, st, e=None):
        op = f.op
        if op == 'ite':
            c = f.args[0]
            s1, s2 = st.under(c), st.under(c, False)
            a = self.call(f.args[1], args, kw, s1, e)
            b = self.call(f.args[2], args, kw, s2, e)
            m = self.merge_st(c, s1, s2, st.asm, st.pc)
            st.env, st.mem = m.env, m.mem
            return X.merge(c, a, b)
        if op == 'func':
            fn = self.p.fns.get(f.args[0]) or self.closures.get(f.args[0])
            return self.call_repo(fn, args, kw, st)
        if op == 'bound':
            fn = self.p.fns[f.args[0]]
            return self.call_repo(fn, [f.args[1]] + args, kw, st)
        if op == 'cls':
            return self.construct(self.p.classes[f.args[0]], args, kw, st)
        if op == 'ext':
            return self.call_ext(f.args[0], args, kw, st, e)
        if op == 'bmeth':
            return self.call_method(f.args[0], f.args[1], args, kw, st)
        if op == 'attr':
            return self.call_method(f.args[0], f.args[1], args, kw, st)
        if op in ('noattr', 'noname', 'undef'):
            return mk('call', 'dyn:' + f.dg, tuple(self.snap(a, st) for a in args))
        return mk('call', 'dyn', (f,) + tuple(self.snap(a, st) for a in args))

    def call_repo(self, fn, args, kw, st):
        if fn.qual in self.prims and self.depth > 0:
            return self.prim(fn, args, kw, st)
        return self.call_fn(fn, args, kw, st)

    def bind(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n_, v in zip(names, args):
            env[n_] = v
        extra = args[len(names):]
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', tuple(extra))
        elif extra:
            self.ev('callarity', st, fn.qual, const(len(args)))
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwn:
                env[k] = v
            elif a.kwarg is not None or k == '**':
                pass
            else:
                self.ev('callkw', st, fn.qual, k)
        if a.kwarg is not None:
            o = self.new('dict', 'dict')
            st.mem[(o, '$st')] = tuple(((const(k),), v) for k, v in kw.items()
                                       if k not in names and k != '**')
            env[a.kwarg.arg] = o
        dn = names[len(names)-len(a.defaults):] if a.defaults else []
        for n_, d in zip(dn, a.defaults):
            if n_ not in env:
                env[n_] = self.default(fn, d)
        for n_, d in zip(kwn, a.kw_defaults):
            if n_ not in env and d is not None:
                env[n_] = self.default(fn, d)
        for n_ in names:
            if n_ not in env:
                self.ev('callarity', st, fn.qual, const(len(args)))
                env[n_] = X.UNDEF
        return env, names + kwn

    def default(self, fn, d):
        key = ('def', id(d))
        v = self.cache.get(key)
        if v is None:
            v = self.static_eval(fn.mod, d, None)
            self.cache[key] = v
        return v

    def prim(self, fn, args, kw, st):
        env, names = self.bind(fn, args, kw, st)
        vals = [self.snap(env[n_], st) for n_ in names]
        if fn.cls is not None and not fn.static:
            # methods of value-like objects
            nm = fn.cls.name + '.' + fn.name
        else:
            nm = fn.name
        self.ev('call', st, fn.qual, tuple(vals))
        f = self.psub.get(fn.qual)
        t = f(self, vals) if f else None
        if t is None:
            t = self.prim_value(nm, vals, st)
        if fn.qual in self.traced:
            self.trace_call(fn, mk('call', nm, tuple(vals)), env, names, st)
        self.extcalls.append(t)
        return t

    def trace_call(self, fn, cl, env, names, st):
        eff = self.p.effects(fn.qual)
        touched = False
        bases = []
        for n_ in names:
            b = env[n_]
            c = self.type_of(b)
            if c is None or b.op not in ('sym', 'attr', 'obj'):
                continue
            bases.append((b, c))
            for a in sorted(self.p.declared(c)):
                if self.attr_type(c, a) is not None:
                    q = self.getattr(b, a, st)
                    c2 = self.type_of(q)
                    if c2 is not None and q.op in ('attr', 'obj'):
                        bases.append((q, c2))
        for b, c in bases:
            for a in sorted(eff & self.p.declared(c)):
                touched = True
                old = st.mem.get((b, a))
                if old is None or old.op == 'obj':
                    old = mk('attr', self.snap(b, st), a)
                st.mem[(b, a)] = mk('after', cl, old)
        if touched or fn.cls is None:
            k = (X.mk('sym', '<calls>'), 'seq')
            st.mem[k] = mk('then', st.mem.get(k, X.mk('sym', '<start>')), cl)

    def prim_value(self, nm, vals, st):
        return mk('call', nm, tuple(vals))

    def call_fn(self, fn, args, kw, st):
        if fn is None:
            return self.opq('nofn')
        if self.depth > MAXDEPTH or sum(
                1 for f in self.frames if f.fn is fn) >= 3:
            return self.opq('recursion ' + fn.qual)
        env, names = self.bind(fn, args, kw, st)
        if self.record and self.depth > 0:
            self.ev('call', st, fn.qual, tuple(env[n_] for n_ in names))
        fr = Frame(fn)
        if fn.cls is not None and args:
            fr.selft = args[0]
        self.frames.append(fr)
        self.depth += 1
        self.inlined.add(fn.qual)
        try:
            s0 = St(env, st.mem, st.asm, st.pc)
            s0.mem = dict(st.mem)
            outs, nxt = self.block(fn.node.body, s0)
        finally:
            self.depth -= 1
            self.frames.pop()
        # cascade join
        cur, rv = nxt, X.NONE
        blank = {}
        if cur is not None:
            cur = St(blank, cur.mem, cur.asm, cur.pc)
        if self.depth > 0 and any(israise(o) for o in outs):
            outs = self.throw(outs, cur, st)
        for c, k, v, q in reversed(outs):
            q2 = St(blank, q.mem, q.asm, q.pc)
            if cur is None:
                cur, rv = q2, v
            else:
                rv = X.merge(c, v, rv)
                cur = self.merge_st(c, q2, cur, st.asm, st.pc)
        if cur is None:
            return mk('diverge')
        st.mem = cur.mem
        if rv.ite and st.asm:
            rv = X.restrict(rv, st.asm)
        return rv

    def throw(self, outs, nxt, st):
        """hand the exceptional ends of a call to the calling statement"""
        rc = X.FALSE
        ex, val = None, None
        for o in reversed(outs):
            c, k, v, q = o
            if israise(o):
                q2 = St({}, q.mem, q.asm, q.pc)
                if ex is None:
                    ex, val = q2, v
                else:
                    val = X.merge(c, v, val)
                    ex = self.merge_st(c, q2, ex, st.asm, st.pc)
                rc = X.disj(c, rc)
            else:
                rc = X.conj(X.lnot(c), rc)
        if rc.ite and st.asm:
            rc = X.restrict(rc, st.asm)
        if rc is X.FALSE:
            return [o for o in outs if not israise(o)]
        self.pending.append((rc, val, ex.mem))
        return [o for o in outs if not israise(o)]

    valueclasses = frozenset({'gnss.rSigRnx'})

    def construct(self, cls, args, kw, st):
        if cls.isenum:
            if len(args) == 1:
                return args[0]
            return self.opq('enumcall')
        if cls.qual in self.valueclasses and self.opts.get('prim_sig', True):
            return mk('call', cls.name, tuple(self.snap(a, st) for a in args))
        o = self.new('inst', cls.name, cls=cls)
        st.mem[(o, '$new')] = X.TRUE
        init = cls.find('__init__')
        if init is not None:
            self.call_fn(init, [o] + args, kw, st)
        return o

    # ---------------------------------------------------- external functions

    def call_ext(self, name, args, kw, st, e):
        from . import extlib
        return extlib.call(self, name, args, kw, st, e)

    def call_method(self, b, name, args, kw, st):
        from . import extlib
        return extlib.method(self, b, name, args, kw, st)

    def extend(self, lst, v, st):
        c = self.content(lst, st)
        x = self.content(v, st)
        st.mem[(lst, '$l')] = self.concat(c, x)
        st.mem.pop((lst, '$st'), None)

    def readline(self, f, st):
        pos = st.mem.get((f, '$pos'), X.ZERO)
        st.mem[(f, '$pos')] = X.add(pos, X.ONE)
        return mk('line', f, pos)


class _StaticFn:
    def __init__(self, mod, cls):
        self.mod, self.cls = mod, cls
        self.qual = mod.name + '.<static>'
        self.closure = None


BYTEFN = {'binascii.unhexlify', '.finalize', '.digest', 'bytes.fromhex',
          'bytearray.fromhex', '.to_bytes', '.tobytes', '.encode'}
STRFN = {'str', '.strip', '.upper', '.lower', '.rstrip', '.ljust', '.replace',
         '.join', 'chr', '.hex', 'hex', '.rjust', '.zfill', '.lstrip'}

import builtins as _b  # noqa: E402  (names only)
BUILTINS = set(dir(_b))
