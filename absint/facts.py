"""Facts of one analysed entry point: what it returns and what it leaves in
memory, as value terms keyed by access path."""
import time
from . import terms as X
from .terms import mk, const
from .engine import Engine, St, tup
from .model import Broken

PRIMS = ['gnss.' + n for n in (
    'epoch2time glo2time gpst2utc utc2gpst timeadd timediff gpst2time '
    'time2gpst gst2time time2gst bdt2time bdt2gpst gpst2bdt time2bdt '
    'time2epoch time2doy prn2sat sat2prn sat2id id2sat').split()]

TYPES = {'orb': 'peph.peph', 'bsx': 'peph.biasdec', 'obsb': 'gnss.Obs',
         'nav': 'gnss.Nav', 'obs': 'gnss.Obs', 'eph': 'gnss.Eph',
         'geph': 'gnss.Geph', 'seph': 'gnss.Seph', 'cs': 'cssrlib.cssr'}


class Spec:
    def __init__(self, id, entry, args=None, types=None, sub=(), asm=(),
                 prims=None, noprims=(), psub=None, opts=None, setup=None,
                 bind=None, trace=()):
        self.id, self.entry = id, entry
        self.args = args or {}       # parameter -> term builder
        self.types = types or {}
        self.sub, self.asm = sub, asm
        self.prims = PRIMS if prims is None else prims
        self.noprims = noprims
        self.psub = psub or {}
        self.trace = trace
        self.opts = opts
        self.setup = setup


def unold(t):
    m = {x: x.args[0] for x in X.leaves(t, lambda x: x.op == 'old')}
    return X.subst(t, m) if m else t


class Facts:
    def __init__(self):
        self.f = {}
        self.ret = None

    def put(self, k, v):
        v = unold(v)
        if k in self.f and self.f[k] is not v:
            n = 2
            while '%s~%d' % (k, n) in self.f:
                n += 1
            k = '%s~%d' % (k, n)
        self.f[k] = v


def isopq(t):
    return X.contains(t, lambda x: x.op == 'opq')


def fold_ite(c, a, b):
    return X.ite(c, a, b)


def shape(t):
    """kind of a returned leaf, values erased"""
    if t.op == 'inst':
        return mk('c', '<%s>' % t.args[0])
    if t.op == 'tuple':
        return mk('c', '<tuple%d>' % len(t.args[0]))
    return t


def split(t, memo=None):
    """access path -> value (don't-care where the path does not exist)"""
    memo = {} if memo is None else memo
    dc = mk('dc')
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        a, b = split(t.args[1], memo), split(t.args[2], memo)
        r = {}
        for k in list(a) + [k for k in b if k not in a]:
            r[k] = fold_ite(t.args[0], a.get(k, dc), b.get(k, dc))
    elif t.op == 'inst':
        r = {'': shape(t)}
        for q in t.args[1]:
            n, v = q.args[0]
            for k, w in split(v, memo).items():
                r['.' + X.cval(n) + k] = w
        if t.args[2] is not X.NONE:
            r['.<base>'] = t.args[2]
    elif t.op == 'tuple':
        r = {'': shape(t)}
        if len(t.args[0]) <= 64 and any(
                q.op in ('inst', 'tuple', 'dictv', 'arrv', 'ite')
                for q in t.args[0]) or len(t.args[0]) <= 3:
            for i, v in enumerate(t.args[0]):
                for k, w in split(v, memo).items():
                    r['[%d]%s' % (i, k)] = w
        else:
            r = {'': t}
    elif t.op in ('dictv', 'arrv') and distinct_keys(t.args[-1]):
        r = {'': mk(t.op, *t.args[:-1], ())}
        for w in t.args[-1]:
            p = ''.join('[%s]' % X.pp(q) for q in w.args[0].args[0])
            if len(p) > 160:
                p = p[:60] + '..' + w.args[0].dg
            for k, v in split(w.args[1], memo).items():
                r[p + k] = v
    else:
        r = {'': t}
    memo[t] = r
    return r


def distinct_keys(ws):
    return all(w.args[0].op == 'tuple' and all(
        q.op in ('c', 'cls') for q in w.args[0].args[0]) for w in ws)


def run(prog, spec):
    en = Engine(prog, [q for q in list(spec.prims) + list(spec.trace)
                       if q not in spec.noprims], spec.opts)
    en.traced = set(spec.trace)
    fn = prog.fns.get(spec.entry)
    if fn is None:
        raise Broken('entry point %s not found' % spec.entry)
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    args = []
    st = St({}, {}, X.Asm.of({}))
    nreq = len(names) - len(a.defaults)
    kw = {}
    for k, n in enumerate(names):
        v = spec.args.get(n, spec.args.get(k))
        if v is None:
            if k >= nreq:
                continue
            v = mk('sym', 'arg%d' % k if not (fn.cls and k == 0) else 'self')
        elif callable(v):
            v = v(en, st)
        elif not isinstance(v, X.T):
            v = const(v)
        if k >= nreq:
            kw[n] = v
        else:
            args.append(v)
        q = spec.types.get(n)
        if k == 0 and fn.cls and not fn.static:
            q = q or fn.cls.qual
        q = q or TYPES.get(n)
        if q:
            c = prog.classes.get(q)
            if c is None:
                raise Broken('class %s not found' % q)
            en.types[v] = c
    for f in spec.sub:
        en.entry_sub.append(f(en))
    en.psub = spec.psub
    asm = st.asm
    for f in spec.asm:
        r = f(en)
        c, val = r if isinstance(r, tuple) else (r, True)
        asm = X.assume(asm, c, val)
    st.asm = asm
    if spec.setup:
        spec.setup(en, st)
    r = en.call_fn(fn, args, kw, st)
    F = Facts()
    F.en, F.st = en, st
    for k, v in split(en.snap(r, st)).items():
        F.put('ret' + k, v)
    for (b, f), v in sorted(st.mem.items(), key=lambda x: (x[0][0].dg,
                                                           x[0][1])):
        if b.op == 'obj' and b not in en._statics and b not in en.external:
            continue
        nm = X.pp(b) if b.op != 'obj' else 'static:' + str(b.args[1])
        if len(nm) > 200:
            nm = nm[:80] + '..' + b.dg
        if f == '$st':
            stores(F, en, st, nm, v)
        elif f == '$upd' and b.op != 'call':
            F.put(nm + '.$upd', en.snap(v, st))
        elif f in ('$pos', '$new', '$upd'):
            continue
        elif isinstance(v, X.T):
            if v.op == 'attr' and v.args[0] is b and v.args[1] == f:
                continue
            for k, w in split(en.snap(v, st)).items():
                F.put(nm + '.' + f + k, w)
    cs = []
    for _, p, v in en.cells:
        p = tuple(en.snap(q, st) for q in p)
        v = en.snap(v, st)
        if v.sz < CELLMAX and all(q.sz < CELLMAX for q in p):
            cs.append(mk('w', mk('tuple', p), unold(v)))
    if cs:
        F.put('<cells>', X.bag(cs))
    for k in range(nreq, len(names)):
        v = en.default(fn, a.defaults[k - nreq])
        if v.op in ('c', 'cls', 'tuple', 'poly'):
            F.put('<default>.%d' % k, v)
    sharing(F, en, st, r, prog)
    F.ms = en.nodes
    return F


def peel(t):
    """the object a value is (part of, or a view of)"""
    while t.op in ('idx', 'slice'):
        t = t.args[0]
    return t


def isview(t):
    if t.op == 'slice':
        return True
    if t.op == 'idx':
        i = t.args[1]
        return i.op == 'slice3' or i.op == 'tuple' and any(
            x.op == 'slice3' for x in i.args[0])
    return False


def sources(v, n=400, views=False, nest=()):
    """attributes (and elements of the attributes nest) whose very object
    (no copy) a value may be"""
    out, seen, todo = set(), set(), [v]
    while todo and n:
        x = todo.pop()
        if x in seen or not isinstance(x, X.T):
            continue
        seen.add(x)
        n -= 1
        if x.op == 'ite':
            todo += x.args[1:]
        elif x.op == 'tuple' and len(x.args[0]) < 12:
            todo += x.args[0]
        else:
            while views and isview(x):
                x = x.args[0]
            if x.op == 'attr':
                out.add(x)
            elif x.op == 'old' and element(x.args[0], nest):
                out.add(x.args[0])
            elif element(x, nest):
                out.add(x)
    return out


def element(x, nest):
    if x.op != 'idx' or isview(x):
        return False
    a = x.args[0]
    return a.op == 'attr' and a.args[1] in nest


def kept(v, w, x, asm=None, n=16):
    """on some path both the new holder v and the old holder w end up with
    the object x"""
    if not isinstance(w, X.T) or w is x:
        return True
    if asm is None:
        asm = X.Asm.of({})
    try:
        v, w = X.deep(v, asm), X.deep(w, asm)
        if not any(y is x for y in sources(v)):
            return False
        for t in (v, w):
            if t.op == 'ite' and n > 0:
                return any(kept(v, w, x, X.assume(asm, t.args[0], b), n-1)
                           for b in (True, False))
        return any(y is x for y in sources(w))
    except (X.Big, RecursionError):
        return True


def sharing(F, en, st, r, prog):
    """which container attributes end up sharing one object, which are
    changed in place and which are rebound"""
    C = prog.containers()
    E = prog.containers('nested')
    F.alias, F.inpl, F.bind = set(), set(), set()
    for x in sources(r):
        if x.args[1] in C:
            F.alias.add('ret<-' + x.args[1])
    els = lambda v: {x for x in sources(v, nest=E)  # noqa: E731
                     if x.op == 'idx'}
    for x in els(r):
        F.alias.add('ret<-%s[]' % x.args[0].args[1])
    for (b, f), v in st.mem.items():
        if f in ('$st', '$l', '$upd'):
            q = peel(b)
            if q.op == 'attr' and q.args[1] in C:
                F.inpl.add(q.args[1])
            if f == '$st' and q.op == 'attr':
                for p, w in v:
                    for x in sources(w):
                        if x.args[1] in C:
                            F.alias.add('%s[]<-%s' % (q.args[1], x.args[1]))
                    for x in els(w):
                        if x.args[0].args[1] != q.args[1]:
                            F.alias.add('%s[]<-%s[]' % (
                                q.args[1], x.args[0].args[1]))
        elif not f.startswith('$') and isinstance(v, X.T):
            for x in sources(v):
                if x.args[1] in C and not (
                        x.args[0] is b and x.args[1] == f) and \
                        kept(v, st.mem.get(x.args[:2], x), x):
                    F.alias.add('%s<-%s' % (f, x.args[1]))
            for x in els(v):
                F.alias.add('%s<-%s[]' % (f, x.args[0].args[1]))
            if b.op != 'obj' and f in C and not (
                    v.op == 'attr' and v.args[0] is b and v.args[1] == f):
                F.bind.add(f)
    A = prog.containers('arrays')
    for k, _, _, a in en.events:
        if k == 'view' and a[0]:
            for x in sources(a[1], views=True):
                if x.args[1] in A and x.args[1] != a[0]:
                    F.alias.add('%s<-%s' % (a[0], x.args[1]))
        if k == 'augalias':
            q = peel(a[1])
            if q.op == 'attr' and q.args[1] in C:
                F.inpl.add(q.args[1])


CELLMAX = 20000


def stores(F, en, st, nm, ws):
    loc = {}
    for p, v in ws:
        key = nm + ''.join('[%s]' % X.pp(en.snap(q, st)) for q in p)
        if len(key) > 260:
            key = key[:120] + '..' + mk('k', const(key)).dg
        for k, w in split(en.snap(v, st)).items():
            loc.setdefault(key + k, []).append(unold(w))
    for k, vs in loc.items():
        if len(vs) == 1:
            F.put(k, vs[0])
        else:
            F.put(k, X.bag(vs))
