"""Decide whether two value terms differ, and if so where.

  same(a, b)  -> None          equal after normalisation
  ('hard', x, y)               two fully modelled values differ
  ('soft', x, y)               the difference lies in something the abstract
                               domain does not model exactly: undecided
"""
import time
from . import terms as X
from .terms import T, mk

# operators standing for values the domain only names
SOFT = {'opq', 'sel', 'iters', 'mu', 'rec', 'acc', 'comp', 'noattr',
        'noname', 'undef', 'diverge', 'exc', 'star', 'zip', 'enum', 'upd',
        'psum', 'phi', 'first', 'exists', 'forall', 'op', 'old',
        'rest', 'sumto', 'obj', 'big', 'then', 'after', 'concat', 'fmt',
        'dictc', 'bmeth', 'idxerr', 'lst', 'super', 'lv', 'bag'}


def soft(t):
    return X.contains(t, lambda x: x.op in SOFT)


def softset(t):
    return frozenset(X.leaves(t, lambda x: x.op in SOFT))


class Budget(Exception):
    pass


def kids(t):
    st = [x for x in t.args]
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            st += x


def mixed(a, b):
    """a reads bytes of a buffer of which b reads bit fields"""
    m = {x.args[0] for x in X.leaves(a, lambda x: x.op == 'idx')}
    if not m:
        return False
    return any(x.args[0] in m for x in X.leaves(
        b, lambda x: x.op == 'bits'))


def linear(asm):
    """the equations among the decisions have a common solution that none of
    the inequations excludes (linear algebra over the monomials)"""
    rows = []

    def reduce(p):
        for m, r in rows:
            k = p.get(m)
            if k:
                for n, v in r.items():
                    w = p.get(n, 0) - k*v
                    if w:
                        p[n] = w
                    else:
                        p.pop(n, None)
        return p
    neq = []
    for a, v in asm.items():
        if a.op != 'eq' or not X.maybenum(a.args[0]) or \
                not X.maybenum(a.args[1]) or a.args[0].op == 'ite':
            continue
        if X.isnum(a.args[1]) is None:
            continue
        p = dict(X.pget(a.args[0]))
        k = p.get((), 0) - X.isnum(a.args[1])
        if k:
            p[()] = k
        else:
            p.pop((), None)
        if not v:
            neq.append(p)
            continue
        p = reduce(p)
        ms = [m for m in p if m != ()]
        if not ms:
            if p:
                return False
            continue
        m = min(ms, key=X._mkey)
        k = p[m]
        p = {n: x/k for n, x in p.items()}
        for i, (m2, r) in enumerate(rows):
            k = r.get(m)
            if k:
                r = dict(r)
                for n, x in p.items():
                    w = r.get(n, 0) - k*x
                    if w:
                        r[n] = w
                    else:
                        r.pop(n, None)
                rows[i] = (m2, r)
        rows.append((m, p))
    if not rows:
        return True
    return all(reduce(dict(p)) for p in neq)


class Differ:
    """diff(a, b) -> None | ('soft', x, y) | ('hard', [(x, y, path), ...]):
    `path` lists the decisions under which the two leaves are compared."""
    KEEP = 6

    def __init__(self, budget=20000, shared=frozenset(), common=(),
                 decs=None):
        self.decs = decs
        self.common = set(common)  # loop results occurring on both sides
        self.memo = {}
        self.left = budget
        self.shared = shared       # unknowns occurring on both sides
        self.sm = {}
        self.fe = {}
        self.ints = frozenset()
        self.fleft = 2000
        self.end = time.process_time() + 6

    def soft(self, t):
        """contains an unknown the other side does not have"""
        r = self.sm.get(t)
        if r is None:
            if t in self.shared:
                r = False
            elif t.op in SOFT:
                r = True
            else:
                r = any(self.soft(x) for x in kids(t))
            self.sm[t] = r
        return r

    def diff(self, a, b):
        if a is b or a.dg == b.dg or a.op == 'dc' or b.op == 'dc':
            return None
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        self.left -= 1
        if self.left < 0 or not self.left & 15 and \
                time.process_time() > self.end:
            raise Budget()
        self.memo[k] = ('soft', a, b)      # cycles do not occur; placeholder
        r = self._diff(a, b)
        self.memo[k] = r
        return r

    def worst(self, prs):
        s, hs = None, []
        for x, y in prs:
            r = self.diff(x, y)
            if r is not None:
                if r[0] == 'hard':
                    hs += r[1]
                    if len(hs) >= self.KEEP:
                        break
                s = s or r
        if hs:
            return ('hard', hs[:self.KEEP])
        return s

    def _diff(self, a, b):
        ia, ib = a.op == 'ite', b.op == 'ite'
        if ia or ib:
            return self.ites(a, b, ia, ib)
        if a.op == b.op == 'concat' and self.permuted(a, b):
            return ('hard', [(a, b, ())])
        if a.op == b.op == 'eq':
            b = oriented(a, b)
        if 'poly' in (a.op, b.op) and nozero(a) is nozero(b):
            return None
        if a.op == b.op and a.op not in ('c', 'sym'):
            if a.op == 'poly':
                r = self.poly(a, b)
            elif a.op in ('and', 'or', 'bag'):
                r = self.bag(a.args[0], b.args[0], a, b)
            else:
                r = self.args(a, b)
            if r is not None:
                return r
        return self.leafpair(a, b)

    def permuted(self, a, b):
        """the same pieces strung together in another order"""
        p, q = a.args[0], b.args[0]
        return len(p) == len(q) and \
            sorted(x.dg for x in p) == sorted(x.dg for x in q)

    def leafpair(self, a, b):
        """no common structure left: split on the decisions inside"""
        c = guard(a, b)
        if c is None:
            if count(a, b) or count(b, a):
                return ('soft', a, b)
            if self.soft(a) or self.soft(b):
                if self.bounds(a, b) or self.carried(a, b):
                    return ('hard', [(a, b, ())])
                return ('soft', a, b)
            if mixed(a, b) or mixed(b, a):
                return ('soft', a, b)
            return ('hard', [(a, b, ())])
        return self.split(a, b, c)

    def carried(self, a, b):
        """a plain constant against what a loop present on both sides
        left behind"""
        return (a in self.common and const(b) or
                b in self.common and const(a))

    def bounds(self, a, b):
        """the two differ in nothing but how often a loop runs"""
        la = {x for x in X.leaves(a, lambda x: x.op == 'lv')}
        lb = {x for x in X.leaves(b, lambda x: x.op == 'lv')}
        oa, ob = la - lb, lb - la
        if len(oa) != 1 or len(ob) != 1:
            return False
        p, q = oa.pop(), ob.pop()
        if p.args[1] != q.args[1]:
            return False
        m, n = p.args[0], q.args[0]
        if soft(m) or soft(n) or m.op == 'sym' or n.op == 'sym':
            return False
        try:
            return X.subst(b, {q: p}) is a
        except X.Big:
            return False

    def split(self, a, b, c, known=False):
        t = X.Asm.of({})
        s, hs = None, []
        for val in (True, False):
            p = X.assume(t, c, val)
            x, y = X.deep(a, p), X.deep(b, p)
            if val and c.op == 'eq':
                e, k = c.args[:2]
                if e.op == 'c':
                    e, k = k, e
                if k.op == 'c' and e.op not in ('c', 'poly', 'ite'):
                    try:
                        x = X.subst(x, {e: k})
                        y = X.subst(y, {e: k})
                    except X.Big:
                        pass
            if self.common and len(self.common) < 200:
                self.common |= {X.deep(m, p) for m in self.common}
            if x is a and y is b:
                return ('soft', a, b)
            r = self.diff(x, y)
            if r is None:
                continue
            if r[0] == 'hard' and X.contains(
                    c, lambda x: x is X.UNDEF):
                r = ('soft',) + r[1][0][:2]      # reading it raises
            if r[0] == 'hard':
                if self.soft(c) and not known and not (
                        self.decs is not None and c.dg in self.decs()):
                    r = ('soft',) + r[1][0][:2]
                else:
                    for x, y, q in r[1]:
                        q = ((c, val),) + q
                        if self.feasible(q):
                            hs.append((x, y, q))
                    if not hs:
                        r = ('soft',) + r[1][0][:2]
            s = s or r
        if hs:
            return ('hard', hs[:self.KEEP])
        return s

    def feasible(self, path):
        """no contradiction found among the decisions"""
        r = self.fe.get(path)
        if r is None:
            asm = X.Asm.of({})
            try:
                for c, v in path:
                    e = X.entail(c, asm)
                    if e is not None and e is not v:
                        asm = None
                        break
                    asm = X.assume(asm, c, v)
                r = asm is not None and self.feas(asm, [24]) and \
                    not gap(path, self.ints)
            except (X.Big, RecursionError):
                r = False
            self.fe[path] = r
        return r

    def feas(self, asm, n):
        if not linear(asm):
            return False
        self.fleft -= 1
        if self.fleft < 0 or time.process_time() > self.end:
            raise Budget()
        sub = {}
        for a, v in asm.items():
            if v and a.op == 'eq' and a.args[1].op == 'c' and \
                    a.args[0].op != 'c':
                sub[a.args[0]] = a.args[1]
        g = None
        red = {}
        for a, v in list(asm.items()):
            rest = X.Asm.of({x: w for x, w in asm.items() if x is not a})
            e = X.entail(a, rest)
            if e is not None and e is not v:
                return False
            s2 = {x: w for x, w in sub.items() if not (
                a.op == 'eq' and a.args[0] is x)}
            b = a
            if a.ite or s2:
                args = [X.restrict(x, rest) if isinstance(x, T) else x
                        for x in a.args]
                b = X.rebuild(a, args)
                if s2:
                    b = X.subst(b, s2)
                if b is not a:
                    if b.op == 'not':
                        b, v = b.args[0], not v
                    if b.op == 'c':
                        if bool(X.cval(b)) is not v:
                            return False
                        continue
                    e = X.entail(b, rest)
                    if e is not None and e is not v:
                        return False
                    if red:
                        e = X.entail(b, X.Asm.of(dict(red)))
                        if e is not None and e is not v:
                            return False
                    red[b] = v
            if g is None and b.ite:
                g = guard(*b.args) if b.op in X.ATOMS else guard(b)
        if g is None or n[0] <= 0:
            return True
        n[0] -= 1
        for val in (True, False):
            if X.entail(g, asm) is (not val):
                continue
            a2 = X.assume(asm, g, val)
            if a2 is asm:
                return True
            if self.feas(a2, n):
                return True
        return False

    def args(self, a, b):
        """same operator: descend when the structure agrees"""
        prs = []
        if len(a.args) != len(b.args):
            return None
        if a.op in ('sel', 'upd', 'arrv', 'dictv'):
            return self.writes(a, b)
        for x, y in zip(a.args, b.args):
            if not _pair(x, y, prs):
                return None
        if not prs:
            return None
        r = self.worst(prs)
        if a.op == 'eq' and r is not None and r[0] == 'hard':
            # an equation may be written with its sides exchanged or with
            # both sides negated
            lin = a.args[0].op == b.args[0].op == 'poly' and \
                X.isnum(a.args[1]) is not None and \
                X.isnum(b.args[1]) is not None
            alt = [] if lin else [(b.args[1], b.args[0])]
            if X.isnum(b.args[1]) is not None and not (
                    lin and X.isnum(a.args[1]) == X.isnum(b.args[1]) == 0 and
                    overlap(a.args[0], b.args[0])):
                try:
                    alt.append((X.neg(b.args[0]), X.neg(b.args[1])))
                except X.Big:
                    pass
            for p, q in alt:
                s = self.worst([(a.args[0], p), (a.args[1], q)])
                if s is None:
                    return None
                if s[0] == 'soft':
                    r = s
        return r

    def writes(self, a, b):
        """containers with an ordered list of writes"""
        for x, y in zip(a.args[:-1], b.args[:-1]):
            if not _pair(x, y, []) or (isinstance(x, T) and x is not y):
                return None
        if not (isinstance(a.args[-1], tuple) and
                isinstance(b.args[-1], tuple)):
            return None
        wa, wb = a.args[-1], b.args[-1]
        if len(wa) != len(wb):
            return None
        if all(x.op == 'w' and y.op == 'w' and x.args[0] is y.args[0]
               for x, y in zip(wa, wb)):
            return self.worst([(x.args[1], y.args[1])
                               for x, y in zip(wa, wb)])
        return None

    def poly(self, a, b):
        """monomials not in common"""
        da, db = dict(a.args[0]), dict(b.args[0])
        ra = {m: c for m, c in da.items() if db.get(m) != c}
        rb = {m: c for m, c in db.items() if da.get(m) != c}
        both = [m for m in ra if m in rb]
        if both and all(m in rb for m in ra) and all(m in ra for m in rb):
            # same monomials, other coefficients
            return self.leafpair(a, b)
        oa = [m for m in ra if m not in rb]
        ob = [m for m in rb if m not in ra]
        if len(oa) == 1 and len(ob) == 1 and ra[oa[0]] == rb[ob[0]]:
            ma, mb = dict(oa[0]), dict(ob[0])
            xa = [f for f in ma if mb.get(f) != ma[f]]
            xb = [f for f in mb if ma.get(f) != mb[f]]
            if len(xa) == 1 and len(xb) == 1 and ma[xa[0]] == mb[xb[0]]:
                return self.diff(xa[0], xb[0])
        sa = [f for m in ra for f, _ in m]
        sb = [f for m in rb for f, _ in m]
        if any(self.soft(f) for f in sa + sb):
            if len(oa) == len(ob) and not both:
                s = self.match(oa, ob, ra, rb)
                if s is not None:
                    return s
        return self.leafpair(a, b)

    def match(self, oa, ob, ra, rb):
        """pair monomials of equal coefficient when that is unambiguous"""
        prs = []
        ca, cb = {}, {}
        for m in oa:
            ca.setdefault(ra[m], []).append(m)
        for m in ob:
            cb.setdefault(rb[m], []).append(m)
        if ca.keys() != cb.keys():
            return None
        for c in ca:
            if len(ca[c]) != 1 or len(cb[c]) != 1:
                return None
            ma, mb = dict(ca[c][0]), dict(cb[c][0])
            xa = [f for f in ma if mb.get(f) != ma[f]]
            xb = [f for f in mb if ma.get(f) != mb[f]]
            if len(xa) != 1 or len(xb) != 1 or ma[xa[0]] != mb[xb[0]]:
                return None
            prs.append((xa[0], xb[0]))
        return self.worst(prs)

    def bag(self, xs, ys, a, b):
        oa = [x for x in xs if x not in ys]
        ob = [y for y in ys if y not in xs]
        if len(oa) == 1 and len(ob) == 1:
            return self.diff(oa[0], ob[0])
        if a.op in ('and', 'or') and len(oa) == len(ob) <= 3:
            r = self.bykind(oa, ob)
            if r is not None:
                return r
        if any(self.soft(x) for x in oa + ob):
            return ('soft', a, b)
        return ('hard', [(a, b, ())])

    def bykind(self, oa, ob):
        """conditions paired by their operator, when that is unambiguous and
        a pair differs in one place deep inside"""
        ka, kb = {}, {}
        for k, xs in ((ka, oa), (kb, ob)):
            for x in xs:
                y = x.args[0] if x.op == 'not' else x
                k.setdefault(y.op, []).append((y, y is x))
        if ka.keys() != kb.keys() or any(
                len(v) != 1 for k in (ka, kb) for v in k.values()):
            return None
        for op in sorted(ka):
            (x, p), (y, q) = ka[op][0], kb[op][0]
            if op == 'lt' and x.args[0].op == y.args[0].op == 'poly' and \
                    overlap(x.args[0], y.args[0], -1) > \
                    overlap(x.args[0], y.args[0]):
                y = mk('lt', X.neg(y.args[0]), X.neg(y.args[1]),
                       not y.args[2])
                q = not q
            if p is not q:
                continue
            r = self.diff(x, y)
            if r is not None and r[0] == 'hard' and all(
                    p.op == q.op == 'call' or inside(p, x, 3) and
                    inside(q, y, 3) for p, q, _ in r[1]):
                return r
        return None

    # ------------------------------------------------------------ decisions

    def ites(self, a, b, ia, ib):
        """cofactor on the guards of both sides"""
        ca = a.args[0] if ia else None
        cb = b.args[0] if ib else None
        if ca is not None and cb is not None and ca is cb:
            return self.split(a, b, ca, known=True)
        c = ca if cb is None or (ca is not None and ca.dg <= cb.dg) else cb
        c = guard(c) or c
        return self.split(a, b, c, known=ca is not None and cb is not None and
                          c in atoms(a) and c in atoms(b))


def inside(p, t, n):
    """p is a proper part of t, at least n levels down"""
    near, lv = {t}, [t]
    for _ in range(n):
        lv = [y for x in lv for y in kids(x)]
        near.update(lv)
    return p not in near


def nozero(t):
    """a sum without the zero vectors in it"""
    if t.op != 'poly':
        return t
    p = {m: c for m, c in t.args[0] if not any(
        f.op == 'tuple' and all(X.isnum(x) == 0 for x in f.args[0])
        for f, _ in m)}
    if not p or len(p) == len(t.args[0]):
        return t
    return X.pmake(p)


def overlap(p, q, k=1):
    """terms of the sum p found in k times the sum q"""
    db = dict(q.args[0])
    return sum(db.get(m) == k*c for m, c in p.args[0])


def oriented(a, b):
    """b, an equation, with the signs that match those of a best"""
    p, q = a.args[0], b.args[0]
    if p.op != 'poly' or q.op != 'poly' or len(b.args) < 2 or \
            X.isnum(b.args[1]) is None:
        return b
    if overlap(p, q, -1) <= overlap(p, q):
        return b
    return mk('eq', X.neg(q), X.neg(b.args[1]), *b.args[2:])


def count(a, b):
    """a stored number against the length of a stored container: the two
    may be kept equal"""
    return a.op == 'len' and b.op in ('attr', 'idx', 'sym') and \
        X.contains(a, lambda x: x.op in ('attr', 'sym'))


def const(t):
    return t.op == 'c' or t.op == 'tuple' and not t.args[0]


def guard(*ts):
    """the smallest decision of the terms that can be taken on its own (the
    arguments of an atomic condition are left alone)"""
    best = None
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or not x.ite or x in seen or \
                x.op in X.ATOMS:
            continue
        seen.add(x)
        if x.op == 'ite':
            c = x.args[0]
            if c.op == 'ite':
                st.append(c)
            elif best is None or (c.sz, c.dg) < (best.sz, best.dg):
                best = c
            st += x.args[1:]
        else:
            st.extend(x.args)
    return best


_AT = {}


def atoms(t):
    r = _AT.get(t)
    if r is None:
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.op != 'ite' or x in seen:
                continue
            seen.add(x)
            out.append(x.args[0])
            st += [x.args[1], x.args[2]]
        r = _AT[t] = frozenset(out)
    return r


def _pair(x, y, prs):
    if isinstance(x, T) and isinstance(y, T):
        if x is not y and x.dg != y.dg:
            prs.append((x, y))
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        return all(_pair(p, q, prs) for p, q in zip(x, y))
    return type(x) is type(y) and x == y


# unknowns that mean the same wherever they occur
STABLE = {'lv', 'old', 'lst', 'bmeth', 'fmt', 'obj'}


def compare(a, b, decs=None):
    _AT.clear()
    try:
        sh = frozenset(x for x in softset(a) & softset(b) if x.op in STABLE)
        cm = [x for x in softset(a) & softset(b) if x.op == 'mu']
        df = Differ(shared=sh, common=cm, decs=decs)
        df.ints = counts(a) | counts(b)
        r = df.diff(a, b)
    except (Budget, RecursionError, X.Big):
        return ('soft', a, b)
    if r is not None and r[0] == 'soft':
        r = exits(a, b) or r
    if r is not None and r[0] == 'hard':
        da, db = decisions([a]), decisions([b])
        for x, y, path in r[1]:
            if not unsure(path, da, db) and not nokey(path, da, db) and \
                    not below(x, y, path) and not below(y, x, path):
                return ('hard', x, y)
        return ('soft',) + r[1][0][:2]
    return r


def counts(t):
    """values used to count loop rounds"""
    out = set()
    for x in X.leaves(t, lambda x: x.op == 'lv'):
        for m in X.pget(x.args[0]):
            if len(m) == 1 and m[0][1] == 1:
                out.add(m[0][0])
    return frozenset(out)


def gap(path, ints):
    """the path asks for an integer strictly between two neighbours"""
    lo, hi = {}, {}
    for c, v in path:
        if c.op != 'lt':
            continue
        k = X.isnum(c.args[1])
        if k is None:
            continue
        p = X.pget(c.args[0])
        if not all(m == () or len(m) == 1 and m[0][1] == 1 and
                   (m[0][0] in ints or m[0][0].op in ('lv', 'bits', 'len'))
                   for m in p) or \
                any(x.denominator != 1 for x in p.values()):
            continue
        fl = k.numerator // k.denominator
        eq = bool(c.args[2])
        g = c.args[0]
        if v:                    # g <= k, g < k
            b = fl if eq or fl != k else fl-1
            hi[g] = min(hi.get(g, b), b)
        else:                    # g > k, g >= k
            b = fl+1 if eq or fl != k else fl
            lo[g] = max(lo.get(g, b), b)
    return any(g in hi and hi[g] < b for g, b in lo.items())


def below(x, y, path):
    """x is y modulo n, and the path has y < n for a loop counter"""
    if x.op != 'mod' or x.args[0] is not y or y.op not in ('lv', 'len'):
        return False
    d = X.sub(y, x.args[1])
    return any(v and c.op == 'lt' and c.args[0] is d and
               X.isnum(c.args[1]) == 0 for c, v in path)


def nokey(path, da, db):
    """a dictionary holds None under an existing key, which only one side
    tells apart (d.get(k) is None against k not in d)"""
    for c, v in path:
        if not v or c.op != 'eq' or (c.dg in da) == (c.dg in db):
            continue
        for n, e in (c.args, c.args[::-1]):
            if isinstance(n, T) and n.op == 'c' and n.args[0] is None and \
                    isinstance(e, T) and e.op == 'idx' and any(
                        w and q.op == 'in' and q.args[0] is e.args[1] and
                        q.args[1] is e.args[0] for q, w in path):
                return True
    return False


def unsure(path, da, db):
    """some decision of the path is taken on one side only and has further
    decisions inside its operands: the other side may take the same decision
    in another form"""
    pa, pb = [], []
    for c, _ in path:
        ia, ib = c.dg in da, c.dg in db
        if ia and ib:
            continue
        if any(x.ite for x in kids(c)):
            if ia or not ib:
                pa.append(c)
            if ib or not ia:
                pb.append(c)
    for p in pa:
        for q in pb:
            if p.op != q.op or p is q:
                continue
            try:
                r = Differ(budget=4000).diff(p, q)
            except (Budget, RecursionError, X.Big):
                return True
            if r is None or r[0] == 'soft':
                return True
    return False


def decisions(ts):
    """digests of the conditions decided anywhere in the terms"""
    out, seen, st = set(), set(), list(ts)
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
        elif isinstance(x, T) and x.ite and x not in seen:
            seen.add(x)
            if x.op == 'ite':
                out.add(x.args[0].dg)
            st.extend(x.args)
    return out


def exits(a, b):
    """the only loop exits that differ stop under different conditions"""
    for op, k, same in (('exists', 1, 0), ('iters', 1, 2), ('first', 1, 0)):
        xa = {x.args[k]: x for x in X.leaves(a, lambda x: x.op == op)}
        xb = {x.args[k]: x for x in X.leaves(b, lambda x: x.op == op)}
        oa = [xa[p] for p in xa if p not in xb]
        ob = [xb[p] for p in xb if p not in xa]
        if len(oa) != 1 or len(ob) != 1:
            continue
        p, q = oa[0], ob[0]
        if p.args[same] is not q.args[same]:
            continue
        p, q = p.args[k], q.args[k]
        if p.op == 'c' or q.op == 'c':
            continue
        sh = frozenset(x for x in softset(p) & softset(q)
                       if x.op in STABLE)
        try:
            r = Differ(shared=sh).diff(p, q)
        except (Budget, RecursionError, X.Big):
            continue
        if r is not None and r[0] == 'hard':
            return r
    return None

