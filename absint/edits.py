"""Localise a source difference: is the difference between the reviewed and
the current text of a function a *point edit* (other constants, operators or
names at places of unchanged shape; statements only removed; or statements
only added)?

A value whose normal form changed, but in a way the abstract domain cannot
decide, is attributed to such an edit when every difference of the functions
it was computed from is one.  Restructured code never qualifies."""
import ast
import builtins
import difflib
from collections import Counter


def body_src(fn):
    """text of a function without documentation and annotations"""
    n = fn.node
    b = n.body
    if b and isinstance(b[0], ast.Expr) and isinstance(
            b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:] or [ast.Pass()]
    a = ast.FunctionDef(name='f', args=n.args, body=b, decorator_list=[],
                        returns=None, type_params=[])
    return ast.unparse(ast.fix_missing_locations(a))


def rest_src(mod):
    """module and class level statements"""
    out = []

    def walk(b, pre):
        for s in b:
            if isinstance(s, ast.ClassDef):
                out.append(pre + 'class ' + s.name + ':')
                walk(s.body, pre + ' ')
            elif isinstance(s, (ast.FunctionDef, ast.Import,
                                ast.ImportFrom)):
                continue
            elif isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Constant):
                continue
            else:
                t = ast.unparse(s).splitlines()
                out.extend(pre + ' ' + x for x in t)
    walk(mod.tree.body, '')
    return '\n'.join(out)


def sources(prog):
    d = {q: body_src(f) for q, f in prog.fns.items()}
    for m in prog.mods.values():
        d[m.name + '.<body>'] = rest_src(m)
    return d


class Flat:
    """statements as (shape, leaves, depth)"""

    def __init__(self, src):
        self.items = []
        t = ast.parse(src)
        self.stores = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)
                       and isinstance(n.ctx, ast.Store)}
        self.stores |= {n.arg for n in ast.walk(t) if isinstance(n, ast.arg)}
        self.block(t.body[0].body, 0)
        self.args = ast.dump(t.body[0].args)

    def block(self, b, d):
        for s in b:
            self.stmt(s, d)

    def stmt(self, s, d):
        if isinstance(s, ast.Pass):
            return
        subs = []
        sh, lv = [], []
        self.node(s, sh, lv, subs)
        self.items.append((tuple(sh), tuple(lv), d))
        for nm, b in subs:
            if nm != 'body' and b:
                self.items.append((('<%s>' % nm,), (), d))
            for x in b:
                if isinstance(x, ast.ExceptHandler):
                    self.items.append((('except',), (('s', ast.unparse(x.type)
                                       if x.type else ''),), d))
                    self.block(x.body, d + 1)
                else:
                    self.stmt(x, d + 1)

    def node(self, n, sh, lv, subs):
        if isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not)):
            k = len(lv)
            self.node(n.operand, sh, lv, subs)
            if k < len(lv) and lv[k][0] == 'u':
                lv[k] = ('u', lv[k][1] + type(n.op).__name__)
            return
        if isinstance(n, ast.expr):
            lv.append(('u', ''))
        if isinstance(n, ast.Name):
            sh.append('name')
            lv.append(('n', n.id))
            return
        if isinstance(n, ast.Constant):
            sh.append('const')
            lv.append(('c', type(n.value).__name__, repr(n.value)))
            return
        if isinstance(n, ast.Call) and isinstance(
                n.func, (ast.Name, ast.Attribute)):
            if isinstance(n.func, ast.Name):
                sh.append('call:name')
                lv.append(('f', n.func.id))
            else:
                sh.append('call:attr')
                lv.append(('f', n.func.attr))
                self.sub(n.func.value, sh, lv, subs)
            sh.append((len(n.args), len(n.keywords)))
            for x in n.args + n.keywords:
                self.sub(x, sh, lv, subs)
            sh.append(')')
            return
        if isinstance(n, ast.BoolOp):
            # operands in order; connectives and grouping are leaves
            ops, grp = [], []
            sh.append('BoolOp')
            cnt = self.boolean(n, ops, grp, sh, lv, subs)
            sh.append(cnt)
            sh.append(')')
            lv.append(('o', ' '.join(ops)))
            lv.append(('o', ''.join(grp)))
            return
        sh.append(type(n).__name__)
        for f, v in ast.iter_fields(n):
            if f in ('ctx', 'type_comment', 'returns', 'decorator_list'):
                continue
            if isinstance(v, list):
                if v and isinstance(v[0], (ast.stmt, ast.ExceptHandler)):
                    subs.append((f, v))
                    continue
                if f in ('orelse', 'finalbody') and not v:
                    continue
                sh.append(len(v))
                for x in v:
                    if isinstance(x, ast.AST):
                        self.sub(x, sh, lv, subs)
                    else:
                        lv.append(('s', x))
            elif isinstance(v, ast.AST):
                self.sub(v, sh, lv, subs)
            elif v is None:
                sh.append('-')
            else:
                lv.append(('s', v))
        sh.append(')')

    def boolean(self, n, ops, grp, sh, lv, subs):
        if not isinstance(n, ast.BoolOp):
            self.node(n, sh, lv, subs)
            grp.append('x')
            return 1
        c = 0
        grp.append('(')
        for k, x in enumerate(n.values):
            if k:
                ops.append(type(n.op).__name__)
            c += self.boolean(x, ops, grp, sh, lv, subs)
        grp.append(')')
        return c

    def sub(self, x, sh, lv, subs):
        if isinstance(x, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            lv.append(('o', type(x).__name__))
        else:
            self.node(x, sh, lv, subs)


def rename(a, b):
    """names of b that merely rename a local of a"""
    na = {l[1] for i in a.items for l in i[1] if l[0] == 'n'}
    nb = {l[1] for i in b.items for l in i[1] if l[0] == 'n'}
    gone = {x for x in a.stores - nb if x in na}
    new = {x for x in b.stores - na if x in nb}
    if not gone or not new:
        return {}
    pr = Counter()
    sm = difflib.SequenceMatcher(None, [i[0] for i in a.items],
                                 [i[0] for i in b.items], autojunk=False)
    for t, i1, i2, j1, j2 in sm.get_opcodes():
        if t == 'equal':
            for x, y in zip(a.items[i1:i2], b.items[j1:j2]):
                for p, q in zip(x[1], y[1]):
                    if p[0] == 'n' and q[0] == 'n' and p[1] in gone and \
                            q[1] in new:
                        pr[(p[1], q[1])] += 1
    m, used = {}, set()
    for (p, q), _ in pr.most_common():
        if q not in m and p not in used:
            m[q] = p
            used.add(p)
    return m


def content(lv):
    """constants and names mentioned (signs, operators, callees aside)"""
    return (Counter(x for x in lv if x[0] == 'c'),
            {x for x in lv if x[0] in 'ns'})


def reexpr(x, y):
    """one statement became another of the same kind that mentions other
    constants or other names: not a rewriting of the same expression"""
    if not x[0] or not y[0] or x[0][0] != y[0][0]:
        return False
    (ca, na), (cb, nb) = content(x[1]), content(y[1])
    if na != nb and na - nb and nb - na and len(na ^ nb) > 4:
        return False
    return ca != cb or na != nb


def classify(old, new):
    """None: same text; 'point'; 'other'"""
    if old == new:
        return None
    try:
        a, b = Flat(old), Flat(new)
    except (SyntaxError, IndexError, AttributeError):
        return 'other'
    m = rename(a, b)
    ib = [(i[0], tuple(('n', m.get(l[1], l[1])) if l[0] == 'n' else l
                       for l in i[1]), i[2]) for i in b.items]
    ia = a.items
    if [i[:2] for i in ia] == [i[:2] for i in ib]:
        if [i[2] for i in ia] == [i[2] for i in ib]:
            return None if a.args == b.args or m else 'point'
        return 'point'
    ka, kb = [i[:2] for i in ia], [i[:2] for i in ib]
    if Counter(ka) == Counter(kb):
        return 'other'                       # reordered
    sm = difflib.SequenceMatcher(None, ka, kb, autojunk=False)
    nd = ni = nl = nx = ndep = 0
    dele, ins = [], []
    for t, i1, i2, j1, j2 in sm.get_opcodes():
        if t == 'equal':
            ndep += sum(1 for x, y in zip(ia[i1:i2], ib[j1:j2])
                        if x[2] != y[2])
        elif t == 'delete':
            nd += i2 - i1
            dele += ka[i1:i2]
        elif t == 'insert':
            ni += j2 - j1
            ins += kb[j1:j2]
        else:
            if i2 - i1 == j2 - j1 and all(
                    x[0] == y[0] or reexpr(x, y)
                    for x, y in zip(ka[i1:i2], kb[j1:j2])):
                nl += i2 - i1
                nx += sum(1 for x, y in zip(ka[i1:i2], kb[j1:j2])
                          if x[0] != y[0])
                dele += ka[i1:i2]
                ins += kb[j1:j2]
            else:
                return 'other'
    if Counter(dele) & Counter(ins):
        return 'other'                       # something moved
    if nl > 8 or nl and ni or nd and ni:
        return 'other'
    if nx > 1 or nx and b.stores - set(m) - a.stores:
        return 'other'                       # several statements reworded
    if ndep and (nl or nd > 1 or ni > 1):
        return 'other'
    return 'point'


def classify_rest(old, new):
    """module and class level statements: constants and tables"""
    if old == new:
        return None
    a, b = old.splitlines(), new.splitlines()
    if Counter(a) == Counter(b):
        return 'other'
    sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
    for t, i1, i2, j1, j2 in sm.get_opcodes():
        if t == 'replace' and i2 - i1 != j2 - j1:
            return 'other'
        if t == 'insert':
            return 'other'
    return 'point'


class Edits:
    def __init__(self, ref, prog):
        self.ref, self.prog = ref, prog
        self.memo = {}
        self.rest = {}

    def of(self, q):
        if q not in self.memo:
            f = self.prog.fns.get(q)
            o = self.ref.get(q)
            if f is None or o is None:
                self.memo[q] = 'other'
            else:
                self.memo[q] = classify(o, body_src(f))
        return self.memo[q]

    def body(self, m):
        k = m + '.<body>'
        if k not in self.memo:
            self.memo[k] = classify_rest(
                self.ref.get(k, ''), rest_src(self.prog.mods[m])) \
                if m in self.prog.mods else 'other'
        return self.memo[k]

    def verdict(self, before, now):
        """every difference of the functions involved is a point edit"""
        if set(before) != set(now):
            if any(self.prog.fns.get(q) is None for q in before):
                return None
            if any(q not in self.ref for q in now):
                return None
        out = []
        for q in sorted(set(before) | set(now)):
            r = self.of(q)
            if r == 'other':
                return None
            if r:
                out.append(q)
        if not out:
            for m in sorted(self.prog.mods):
                r = self.body(m)
                if r == 'other':
                    return None
                if r:
                    out.append(m)
        return out or None
