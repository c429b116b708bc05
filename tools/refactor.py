"""Behaviour-preserving rewrites of a source tree (to measure false alarms).

usage: refactor.py SRCROOT OUTROOT KINDS [SEED] [PROB] [FILES]
"""
import ast
import os
import random
import shutil
import sys

R = random.Random(1)
PROB = 0.5


def yes():
    return R.random() < PROB


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ctx)}


def has(n, *ty):
    return any(isinstance(x, ty) for x in ast.walk(n))


SIMPLE = (ast.Assign, ast.AugAssign)
CTR = [0]


def fresh(p='_t'):
    CTR[0] += 1
    return '%s%d' % (p, CTR[0])


class Blocks(ast.NodeTransformer):
    """apply f to every statement list"""

    def __init__(self, f):
        self.f = f

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, ast.Module) or isinstance(n, ast.ClassDef):
            return n
        for a in ('body', 'orelse', 'finalbody'):
            b = getattr(n, a, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, a, self.f(b, n))
        return n


def k_noop(t):
    def f(b, n):
        out = []
        for s in b:
            if yes() and not (isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Constant)):
                out.append(R.choice([
                    lambda: ast.Pass(),
                    lambda: ast.parse('%s = 0' % fresh('_u')).body[0],
                    lambda: ast.parse('%s = [1, 2]' % fresh('_u')).body[0],
                ])())
            out.append(s)
        return out
    return Blocks(f).visit(t)


def k_rename(t):
    for fn in ast.walk(t):
        if not isinstance(fn, ast.FunctionDef):
            continue
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Lambda)) or
               (isinstance(x, ast.FunctionDef) and x is not fn)
               for x in ast.walk(fn)):
            continue
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'eval', 'exec')
               for x in ast.walk(fn)):
            continue
        par = {a.arg for a in fn.args.args + fn.args.kwonlyargs +
               fn.args.posonlyargs}
        imp = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                imp |= {a.asname or a.name for a in x.names}
            if isinstance(x, ast.ExceptHandler) and x.name:
                imp.add(x.name)
        loc = set()
        for s in fn.body:
            loc |= names(s, ast.Store)
        m = {v: v + '_rn' + str(R.randrange(99)) for v in sorted(loc - par - imp)
             if yes()}
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
    return t


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
             ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        o = m.get(type(e.ops[0]))
        if o:
            return ast.Compare(e.left, [o()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def k_ifneg(t):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and yes():
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            return n
    return V().visit(t)


def k_aug(t):
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and isinstance(
                    n.value, ast.Constant) and isinstance(n.op, ast.Add) \
                    and yes():
                v = n.value.value
                if isinstance(v, int) and v > 3 and yes():
                    a = R.randrange(1, v)
                    return [ast.AugAssign(n.target, ast.Add(),
                                          ast.Constant(a)),
                            ast.AugAssign(n.target, ast.Add(),
                                          ast.Constant(v-a))]
                return ast.Assign([n.target], ast.BinOp(
                    ast.Name(n.target.id, ast.Load()), n.op, n.value))
            return n
    return V().visit(t)


def k_temp(t):
    """pull a pure operand out into a temporary"""
    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) \
                    and yes():
                v = fresh()
                out.append(ast.Assign([ast.Name(v, ast.Store())],
                                      s.value.left))
                s.value.left = ast.Name(v, ast.Load())
            elif isinstance(s, (ast.Assign, ast.Expr)) and isinstance(
                    s.value, ast.Call) and s.value.args and yes() and \
                    not isinstance(s.value.args[0], (ast.Starred, ast.Constant,
                                                     ast.GeneratorExp)) and \
                    not has(s.value.func, ast.Call):
                v = fresh()
                out.append(ast.Assign([ast.Name(v, ast.Store())],
                                      s.value.args[0]))
                s.value.args[0] = ast.Name(v, ast.Load())
            elif isinstance(s, ast.If) and yes():
                v = fresh('_c')
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test))
                s.test = ast.Name(v, ast.Load())
            out.append(s)
        return out
    # elif chains: the temporary would be hoisted out of order only inside
    # the orelse list itself, which keeps the semantics
    return Blocks(f).visit(t)


def pure(e):
    return not has(e, ast.Call, ast.Await, ast.Yield, ast.NamedExpr)


def k_swap(t):
    """swap adjacent independent assignments"""
    def ok(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Name) and pure(s.value)

    def okattr(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Attribute) and isinstance(
                s.targets[0].value, ast.Name) and pure(s.value)

    def at(s):
        return {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute)}

    def f(b, n):
        b = list(b)
        i = 0
        while i+1 < len(b):
            x, y = b[i], b[i+1]
            if ok(x) and ok(y) and yes() and not (
                    names(x, ast.Store) & (names(y, ast.Load) |
                                           names(y, ast.Store)) or
                    names(y, ast.Store) & names(x, ast.Load)):
                b[i], b[i+1] = y, x
                i += 1
            elif okattr(x) and okattr(y) and yes() and \
                    x.targets[0].attr not in at(y) and \
                    y.targets[0].attr not in at(x):
                b[i], b[i+1] = y, x
                i += 1
            i += 1
        return b
    return Blocks(f).visit(t)


def k_flip(t):
    """a < b -> b > a, == swap"""
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in m and yes() and pure(n):
                return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()],
                                   [n.left])
            return n
    return V().visit(t)


def k_early(t):
    """if c: return X; rest  ->  if c: return X else: rest"""
    def f(b, n):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Continue, ast.Raise)) and \
                    yes():
                s.orelse = f(b[i+1:], n)
                return b[:i+1]
        return b
    return Blocks(f).visit(t)


def k_while(t):
    """for k in range(n) -> while"""
    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(
                    s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == 'range' and len(s.iter.args) == 1 and \
                    not has(s, ast.Continue) and yes() and \
                    s.target.id not in {x for q in s.body
                                        for x in names(q, ast.Store)}:
                v, m = fresh('_k'), fresh('_n')
                out.append(ast.Assign([ast.Name(m, ast.Store())],
                                      s.iter.args[0]))
                out.append(ast.Assign([ast.Name(v, ast.Store())],
                                      ast.Constant(0)))
                body = [ast.Assign([s.target], ast.Name(v, ast.Load()))] + \
                    s.body + [ast.AugAssign(ast.Name(v, ast.Store()),
                                            ast.Add(), ast.Constant(1))]
                out.append(ast.While(ast.Compare(
                    ast.Name(v, ast.Load()), [ast.Lt()],
                    [ast.Name(m, ast.Load())]), body, []))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(t)


def k_enum(t):
    """for x in seq -> for k in range(len(seq)) (lists and arrays only)"""
    class V(ast.NodeTransformer):
        def visit_For(self, s):
            self.generic_visit(s)
            c = s.iter
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                    c.func.id == 'range' and len(c.args) == 1 and yes():
                c.args = [ast.Constant(0)] + c.args
            elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                    c.func.id == 'enumerate' and isinstance(
                        s.target, ast.Tuple) and len(c.args) == 1 and \
                    isinstance(c.args[0], (ast.Name, ast.Attribute)) and \
                    isinstance(s.target.elts[0], ast.Name) and yes():
                k, x = s.target.elts
                seq = c.args[0]
                s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(
                    ast.Name('len', ast.Load()), [seq], [])], [])
                s.target = k
                s.body.insert(0, ast.Assign([x], ast.Subscript(
                    seq, ast.Name(k.id, ast.Load()), ast.Load())))
            return s
    return V().visit(t)


def k_tern(t):
    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) \
                    and yes():
                e = s.value
                out.append(ast.If(e.test, [ast.Assign(s.targets, e.body)],
                                  [ast.Assign(s.targets, e.orelse)]))
            elif isinstance(s, ast.If) and len(s.body) == 1 and len(
                    s.orelse) == 1 and all(
                        isinstance(q, ast.Assign) and len(q.targets) == 1 and
                        isinstance(q.targets[0], ast.Name)
                        for q in s.body + s.orelse) and \
                    s.body[0].targets[0].id == s.orelse[0].targets[0].id \
                    and yes():
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(
                    s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(t)


def k_merge(t):
    """if a: if b: X -> if a and b: X, and the reverse"""
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and len(n.body) == 1 and isinstance(
                    n.body[0], ast.If) and not n.body[0].orelse and yes():
                n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
                n.body = n.body[0].body
            elif not n.orelse and isinstance(n.test, ast.BoolOp) and \
                    isinstance(n.test.op, ast.And) and yes():
                vs = n.test.values
                n.test = vs[0]
                rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
                n.body = [ast.If(rest, n.body, [])]
            return n
    return V().visit(t)


def k_tuple(t):
    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and isinstance(
                        s.value, ast.Tuple) and len(s.value.elts) == len(
                            s.targets[0].elts) and yes() and pure(s.value) \
                    and not names(s, ast.Store) & names(s.value, ast.Load) \
                    and all(isinstance(x, ast.Name)
                            for x in s.targets[0].elts):
                for x, v in zip(s.targets[0].elts, s.value.elts):
                    out.append(ast.Assign([x], v))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(t)


def k_unpack(t):
    """split multi-field unpack_from into two"""
    import re

    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and isinstance(
                        s.value, ast.Call) and isinstance(
                            s.value.func, ast.Attribute) and \
                    s.value.func.attr == 'unpack_from' and isinstance(
                        s.value.args[0], ast.Constant) and \
                    len(s.value.args) == 3 and yes():
                fm = re.findall('[a-z]\\d+', s.value.args[0].value)
                el = s.targets[0].elts
                if ''.join(fm) == s.value.args[0].value and \
                        len(fm) == len(el) > 2 and \
                        isinstance(s.value.args[2], ast.Name) and \
                        all(isinstance(x, (ast.Name, ast.Attribute))
                            for x in el) and s.value.args[2].id not in \
                        names(s.targets[0], ast.Store):
                    k = R.randrange(1, len(fm))
                    w = sum(int(x[1:]) for x in fm[:k])
                    a = s.value
                    for lo, hi, off in ((0, k, 0), (k, len(fm), w)):
                        c = ast.Call(a.func, [
                            ast.Constant(''.join(fm[lo:hi])), a.args[1],
                            ast.BinOp(a.args[2], ast.Add(), ast.Constant(off))
                            if off else a.args[2]], [])
                        if hi-lo == 1:
                            out.append(ast.Assign([el[lo]], ast.Subscript(
                                c, ast.Constant(0), ast.Load())))
                        else:
                            out.append(ast.Assign([ast.Tuple(
                                el[lo:hi], ast.Store())], c))
                    continue
            out.append(s)
        return out
    return Blocks(f).visit(t)


def k_helper(t):
    """extract runs of simple statements into module-level helpers"""
    new = []
    for fn in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
        if any(isinstance(x, ast.FunctionDef) and x is not fn or
               isinstance(x, (ast.Lambda, ast.Global, ast.Nonlocal))
               for x in ast.walk(fn)):
            continue
        loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        for s in fn.body:
            loc |= names(s, ast.Store)
        if '__class__' in loc or 'super' in {
                x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}:
            continue

        def f(b, n):
            out, i = [], 0
            while i < len(b):
                j = i
                while j < len(b) and isinstance(b[j], SIMPLE) and not has(
                        b[j], ast.ListComp, ast.GeneratorExp, ast.DictComp,
                        ast.SetComp, ast.Lambda):
                    j += 1
                if j - i >= 2 and yes():
                    j = min(j, i + R.randrange(2, 6))
                    blk = b[i:j]
                    st, ld = [], []
                    for s in blk:
                        l_ = names(s, ast.Load)
                        if isinstance(s, ast.AugAssign):
                            l_ |= names(s.target, ast.Store)
                        for x in sorted(l_):
                            if x in loc and x not in st and x not in ld:
                                ld.append(x)
                        for x in sorted(names(s, ast.Store)):
                            if x not in st:
                                st.append(x)
                    h = fresh('_helper')
                    body = list(blk)
                    if st:
                        body.append(ast.Return(
                            ast.Name(st[0], ast.Load()) if len(st) == 1 else
                            ast.Tuple([ast.Name(x, ast.Load())
                                       for x in st], ast.Load())))
                    new.append(ast.FunctionDef(h, ast.arguments(
                        [], [ast.arg(x) for x in ld], None, [], [], None, []),
                        body, [], None))
                    c = ast.Call(ast.Name(h, ast.Load()),
                                 [ast.Name(x, ast.Load()) for x in ld], [])
                    if not st:
                        out.append(ast.Expr(c))
                    elif len(st) == 1:
                        out.append(ast.Assign([ast.Name(st[0], ast.Store())],
                                              c))
                    else:
                        out.append(ast.Assign([ast.Tuple(
                            [ast.Name(x, ast.Store()) for x in st],
                            ast.Store())], c))
                    i = j
                else:
                    out.append(b[i])
                    i += 1
            return out
        Blocks(f).visit(fn)
    t.body.extend(new)
    return t


def k_comp(t):
    """x = [e for a in s] -> loop with append"""
    def f(b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and isinstance(
                        s.value, ast.ListComp) and len(
                            s.value.generators) == 1 and yes():
                g = s.value.generators[0]
                v = fresh('_l')
                ap = ast.Expr(ast.Call(ast.Attribute(
                    ast.Name(v, ast.Load()), 'append', ast.Load()),
                    [s.value.elt], []))
                body = [ap]
                if g.ifs:
                    c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                        ast.And(), g.ifs)
                    body = [ast.If(c, [ap], [])]
                out.append(ast.Assign([ast.Name(v, ast.Store())],
                                      ast.List([], ast.Load())))
                out.append(ast.For(g.target, g.iter, body, []))
                out.append(ast.Assign(s.targets, ast.Name(v, ast.Load())))
            else:
                out.append(s)
        return out
    return Blocks(f).visit(t)


def k_arith(t):
    """commute, distribute constants, x**2 -> x*x"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if not yes():
                return n
            if isinstance(n.op, ast.Mult) and pure(n) and isinstance(
                    n.left, (ast.Constant, ast.Attribute)) and not (
                        isinstance(n.left, ast.Constant) and
                        isinstance(n.left.value, str)) and not has(
                            n, ast.List, ast.JoinedStr):
                return ast.BinOp(n.right, n.op, n.left)
            if isinstance(n.op, ast.Pow) and isinstance(
                    n.right, ast.Constant) and n.right.value == 2 and \
                    isinstance(n.left, ast.Name):
                return ast.BinOp(n.left, ast.Mult(), n.left)
            if isinstance(n.op, ast.Sub) and isinstance(
                    n.right, ast.Constant):
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(
                    ast.USub(), n.right))
            return n
    return V().visit(t)


class Idiom(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == 'keys' and \
                    not c.args and yes():
                n.comparators[0] = c.func.value
            elif isinstance(n.ops[0], ast.NotIn) and yes():
                return ast.UnaryOp(ast.Not(), ast.Compare(
                    n.left, [ast.In()], n.comparators))
            elif isinstance(c, ast.List) and yes():
                n.comparators[0] = ast.Tuple(c.elts, ast.Load())
        elif len(n.ops) == 2 and pure(n) and yes():
            return ast.BoolOp(ast.And(), [
                ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                ast.Compare(n.comparators[0], [n.ops[1]],
                            [n.comparators[1]])])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if len(n.values) == 2 and yes():
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            if not all(isinstance(v, (ast.Compare, ast.UnaryOp))
                       for v in n.values):
                return n
            return ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [neg(v) for v in n.values]))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult) and yes():
            return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'dot',
                                          ast.Load()), [n.left, n.right], [])
        if isinstance(n.op, ast.Sub) and pure(n) and yes():
            return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(),
                                                     n.left))
        if isinstance(n.op, ast.FloorDiv) and pure(n) and False:
            return n
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'dot' and \
                len(n.args) == 1 and yes():
            return ast.BinOp(f.value, ast.MatMult(), n.args[0])
        if isinstance(f, ast.Name) and f.id == 'range' and \
                len(n.args) == 1 and yes():
            n.args = [ast.Constant(0), n.args[0], ast.Constant(1)]
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load) and yes():
            return ast.Call(ast.Name('list', ast.Load()), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and yes():
            return ast.Call(ast.Name('dict', ast.Load()), [], [])
        return n


def k_idiom(t):
    """equivalent expression forms"""
    return Idiom().visit(t)


def k_konst(t):
    """name numeric literals"""
    mod = []

    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            n.body = [self.visit(x) for x in n.body]
            return n

        def visit_JoinedStr(self, n):
            return n

        def visit_Constant(self, n):
            if type(n.value) in (int, float) and n.value not in (0, 1) and \
                    yes():
                k = fresh('_K')
                mod.append(ast.Assign([ast.Name(k, ast.Store())], n))
                return ast.Name(k, ast.Load())
            return n
    for x in t.body:
        if isinstance(x, ast.FunctionDef):
            V().visit(x)
        elif isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    V().visit(y)
    k = 0
    while k < len(t.body) and isinstance(t.body[k], (
            ast.Import, ast.ImportFrom, ast.Expr)):
        k += 1
    t.body[k:k] = mod
    return t


def k_inline(t):
    """inline a temporary used once by the next statement"""
    for fn in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
        cnt = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name):
                cnt[x.id] = cnt.get(x.id, 0) + 1

        def f(b, n):
            out, i = [], 0
            while i < len(b):
                s = b[i]
                if i+1 < len(b) and isinstance(s, ast.Assign) and \
                        len(s.targets) == 1 and isinstance(
                            s.targets[0], ast.Name) and \
                        cnt.get(s.targets[0].id) == 2 and isinstance(
                            b[i+1], (ast.Assign, ast.Return)) and \
                        pure(s.value) and yes():
                    v = s.targets[0].id
                    if v in names(b[i+1], ast.Load) and not has(
                            b[i+1], ast.ListComp, ast.Lambda, ast.GeneratorExp,
                            ast.DictComp):
                        class V(ast.NodeTransformer):
                            def visit_Name(self, x):
                                return s.value if x.id == v else x
                        out.append(V().visit(b[i+1]))
                        i += 2
                        continue
                out.append(s)
                i += 1
            return out
        Blocks(f).visit(fn)
    return t


def k_block(t):
    """extract a whole compound statement into a method / function"""
    for cls in [None] + [x for x in t.body if isinstance(x, ast.ClassDef)]:
        body = t.body if cls is None else cls.body
        new = []
        for fn in [x for x in body if isinstance(x, ast.FunctionDef)]:
            if any(isinstance(x, ast.FunctionDef) and x is not fn or
                   isinstance(x, (ast.Lambda, ast.Global, ast.Nonlocal))
                   for x in ast.walk(fn)):
                continue
            arg = [a.arg for a in fn.args.args]
            if cls is not None and (not arg or arg[0] != 'self'):
                continue
            loc = set(arg) | {a.arg for a in fn.args.kwonlyargs}
            for s in fn.body:
                loc |= names(s, ast.Store)
            if 'super' in {x.id for x in ast.walk(fn)
                           if isinstance(x, ast.Name)}:
                continue

            def uses(n):
                r = {}
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        r[x.id] = r.get(x.id, 0) + 1
                return r
            tot = uses(fn)

            def f(b, n):
                out = []
                for i, s in enumerate(b):
                    if not (isinstance(s, (ast.If, ast.For)) and not has(
                            s, ast.Return, ast.Yield, ast.ListComp,
                            ast.GeneratorExp, ast.DictComp, ast.Lambda,
                            ast.Try) and (isinstance(s, ast.For) or not has(
                                s, ast.Break, ast.Continue))):
                        out.append(s)
                        continue
                    u = uses(s)
                    st = names(s, ast.Store)
                    for x in ast.walk(s):
                        if isinstance(x, ast.AugAssign):
                            st |= names(x.target, ast.Store)
                    if any(tot[x] != u[x] or x in arg for x in st) or \
                            not yes():
                        out.append(s)
                        continue
                    ld = sorted(x for x in u if x in loc and x not in st)
                    # a name that may be unbound here stays here
                    if isinstance(n, (ast.For, ast.While)) and any(
                            x not in arg for x in ld) and False:
                        out.append(s)
                        continue
                    h = fresh('_block')
                    if cls is not None:
                        ld = ['self'] + [x for x in ld if x != 'self']
                    new.append(ast.FunctionDef(h, ast.arguments(
                        [], [ast.arg(x) for x in ld], None, [], [], None, []),
                        [s], [], None))
                    if cls is not None:
                        fnn = ast.Attribute(ast.Name('self', ast.Load()), h,
                                            ast.Load())
                        a_ = ld[1:]
                    else:
                        fnn, a_ = ast.Name(h, ast.Load()), ld
                    out.append(ast.Expr(ast.Call(
                        fnn, [ast.Name(x, ast.Load()) for x in a_], [])))
                return out
            Blocks(f).visit(fn)
        body.extend(new)
    return t


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}


def main():
    global PROB
    src, out, kinds = sys.argv[1:4]
    R.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    PROB = float(sys.argv[5]) if len(sys.argv) > 5 else 0.5
    only = sys.argv[6].split(',') if len(sys.argv) > 6 else None
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(os.path.join(src, 'src'), os.path.join(out, 'src'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    d = os.path.join(out, 'src', 'cssrlib')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f.startswith(('__', 'plot')):
            continue
        if only and f[:-3] not in only:
            continue
        p = os.path.join(d, f)
        t = ast.parse(open(p, encoding='utf-8').read())
        for k in kinds.split(','):
            t = KINDS[k](t)
            ast.fix_missing_locations(t)
        s = ast.unparse(t)
        compile(s, p, 'exec')
        open(p, 'w', encoding='utf-8').write(s)


if __name__ == '__main__':
    main()
