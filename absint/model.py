"""Program model: parsed modules, resolved imports, classes and functions."""
import ast
import os

PKG = 'cssrlib'


class Fn:
    __slots__ = ('mod', 'cls', 'name', 'node', 'qual', 'static', 'prop',
                 'closure', '_ro')

    def __init__(self, mod, cls, node):
        self.mod, self.cls, self.node = mod, cls, node
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = mod.name + '.' + (cls.name + '.' if cls else '') + self.name
        self.static = self.prop = False
        self.closure = None
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            if s == 'staticmethod':
                self.static = True
            if s == 'property':
                self.prop = True

    def __repr__(self):
        return '<Fn %s>' % self.qual


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + '.' + node.name
        self.bases = []
        self.methods = {}
        self.attrs = {}          # name -> expr node
        self.mro = None
        self.isenum = False

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, 'rb') as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src, path)
        self.env = {}            # name -> ('fn',Fn)|('cls',Cls)|('mod',name)|
        #                          ('from',mod,name)|('ext',dotted)|('expr',n)
        self.stmts = []


class Broken(Exception):
    """an anchor of the analysis vanished"""


class Program:
    def __init__(self, root, meta=None):
        self.root = root
        self.meta = meta         # names known from the reviewed tree
        self.known = meta and set(meta['fns'])
        self.src = os.path.join(root, 'src', PKG)
        self.mods = {}
        for dp, dn, fn in sorted(os.walk(self.src)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, '.')
                if rel.endswith('__init__'):
                    rel = rel[:-8].rstrip('.') or '__init__'
                self.mods[rel] = Mod(rel, p)
        for m in self.mods.values():
            self._scan(m, m.tree.body)
        self.classes = {}
        self.fns = {}
        for m in self.mods.values():
            for k, v in m.env.items():
                if v[0] == 'cls':
                    self.classes[v[1].qual] = v[1]
                    for f in v[1].methods.values():
                        self.fns[f.qual] = f
                elif v[0] == 'fn':
                    self.fns[v[1].qual] = v[1]
        for c in self.classes.values():
            self._mro(c)
        self.by_method = {}
        for c in self.classes.values():
            for n in c.methods:
                self.by_method.setdefault(n, []).append(c)
        self._mutated()

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef,)):
                m.env[s.name] = ('fn', Fn(m, None, s))
            elif isinstance(s, ast.ClassDef):
                c = Cls(m, s)
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        c.methods[b.name] = Fn(m, c, b)
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            self._cattr(c, t, b.value)
                    elif isinstance(b, ast.AnnAssign) and b.value is not None:
                        self._cattr(c, b.target, b.value)
                m.env[s.name] = ('cls', c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    full = a.name if a.asname else a.name.split('.')[0]
                    m.env[nm] = self._imp(full)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    base = PKG + ('.' + base if base else '')
                for a in s.names:
                    nm = a.asname or a.name
                    if base == PKG:
                        m.env[nm] = self._imp(PKG + '.' + a.name) \
                            if a.name in self._names() else \
                            ('from', '__init__', a.name)
                    elif base.startswith(PKG + '.'):
                        if nm == '*':
                            m.stmts.append(('star', base[len(PKG)+1:]))
                            m.env.setdefault('*', ('stars', []))[1].append(
                                base[len(PKG)+1:])
                        else:
                            m.env[nm] = ('from', base[len(PKG)+1:], a.name)
                    else:
                        m.env[nm] = ('ext', base + '.' + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.env[t.id] = ('expr', s.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.env[e.id] = ('expr', ast.Subscript(
                                    value=s.value, slice=ast.Constant(k),
                                    ctx=ast.Load()))
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name) and s.value is not None:
                m.env[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._scan(m, h.body)
                self._scan(m, s.body)
            elif isinstance(s, ast.If):
                self._scan(m, s.orelse)
                self._scan(m, s.body)

    def _names(self):
        return {f[:-3] for f in os.listdir(self.src) if f.endswith('.py')}

    def _imp(self, full):
        if full == PKG:
            return ('mod', '__init__')
        if full.startswith(PKG + '.'):
            return ('mod', full[len(PKG)+1:])
        return ('ext', full)

    @staticmethod
    def _cattr(c, t, v):
        if isinstance(t, ast.Name):
            c.attrs[t.id] = v
        elif isinstance(t, ast.Tuple):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    c.attrs[e.id] = ast.Subscript(
                        value=v, slice=ast.Constant(k), ctx=ast.Load())

    def resolve(self, modname, name, depth=0):
        m = self.mods.get(modname)
        if m is None or depth > 8:
            return None
        v = m.env.get(name)
        if v is None:
            for s in m.env.get('*', ('stars', []))[1]:
                r = self.resolve(s, name, depth+1)
                if r is not None:
                    return r
            return None
        if v[0] == 'from':
            r = self.resolve(v[1], v[2], depth+1)
            if r is None and v[2] in self.mods and v[1] == '__init__':
                return ('mod', v[2])
            return r
        if v[0] == 'expr':
            return ('expr', v[1], modname)
        return v

    def _mro(self, c):
        if c.mro is not None:
            return c.mro
        c.mro = [c]
        for b in c.node.bases:
            s = ast.unparse(b)
            if s in ('IntEnum', 'Enum', 'enum.IntEnum', 'enum.Enum',
                     'IntFlag', 'Flag'):
                c.isenum = True
                continue
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(c.mod.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                q = self.resolve(c.mod.name, b.value.id)
                if q and q[0] == 'mod':
                    r = self.resolve(q[1], b.attr)
            if r and r[0] == 'cls':
                c.bases.append(r[1])
        seq = []
        for b in c.bases:
            for x in self._mro(b):
                if x in seq:
                    seq.remove(x)
                seq.append(x)
        c.mro = [c] + seq
        if any(x.isenum for x in seq):
            c.isenum = True
        return c.mro

    MUT = {'append', 'extend', 'update', 'pop', 'remove', 'clear', 'insert',
           'add', 'sort', 'setdefault', 'discard', 'fill', 'popitem',
           'reverse', 'resize', 'put', 'itemset'}

    def _ctor_only(self):
        """names of functions reachable from constructors only"""
        callers = {}             # called name -> names of calling functions

        def visit(node, where):
            for n in ast.iter_child_nodes(node):
                w = where
                if isinstance(n, ast.FunctionDef):
                    w = n.name
                elif isinstance(n, ast.Lambda):
                    w = '<lambda>'
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    callers.setdefault(n.id, set()).add(where)
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load):
                    callers.setdefault(n.attr, set()).add(where)
                visit(n, w)
        for m in self.mods.values():
            visit(m.tree, '<module>')
        defs = {f.name for f in self.fns.values()}
        ok = {'__init__'}
        if self.known is None:
            return ok
        defs = {n for n in defs if n not in self.known}
        more = True
        while more:
            more = False
            for n in defs - ok:
                c = callers.get(n)
                if c and c - {n} and c - {n} <= ok:
                    ok.add(n)
                    more = True
        return ok

    def _mutated(self):
        """attribute names stored or mutated anywhere outside constructors"""
        out = {}
        self.aliased = set()
        if self.meta is not None:
            for a in self.meta['aliased']:
                out.setdefault(a, set()).add('<alias>')

        def root_attr(t):
            while isinstance(t, ast.Subscript):
                t = t.value
            return t.attr if isinstance(t, ast.Attribute) else None

        ctorlike = self._ctor_only()

        def visit(node, inctor, where):
            for n in ast.iter_child_nodes(node):
                w, c = where, inctor
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    c = getattr(n, 'name', '') in ctorlike
                    w = getattr(n, 'name', '<lambda>')
                tg = []
                if isinstance(n, ast.Assign):
                    tg = list(n.targets)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.For):
                    tg = [n.target]
                elif isinstance(n, ast.Delete):
                    tg = list(n.targets)
                elif isinstance(n, ast.With):
                    tg = [i.optional_vars for i in n.items if i.optional_vars]
                flat = []
                while tg:
                    t = tg.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        tg.extend(t.elts)
                    elif isinstance(t, ast.Starred):
                        tg.append(t.value)
                    else:
                        flat.append(t)
                for t in flat:
                    a = root_attr(t)
                    if a and not c:
                        out.setdefault(a, set()).add(w)
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute):
                    if n.func.attr in self.MUT:
                        a = root_attr(n.func.value)
                        if a and not c:
                            out.setdefault(a, set()).add(w)
                    if n.func.attr in ('pack_into', 'pack_into_dict'):
                        for x in n.args:
                            a = root_attr(x)
                            if a and not c:
                                out.setdefault(a, set()).add(w)
                visit(n, c, w)

        def aliases(fn):
            """local name aliasing an attribute and mutated through it"""
            al, mu = {}, set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name):
                    a = root_attr(n.value) if isinstance(
                        n.value, (ast.Attribute, ast.Subscript)) else None
                    if a:
                        al.setdefault(n.targets[0].id, set()).add(a)
                tg = n.targets if isinstance(n, ast.Assign) else \
                    [n.target] if isinstance(n, ast.AugAssign) else []
                for t in tg:
                    q = t
                    while isinstance(q, ast.Subscript):
                        q = q.value
                    if isinstance(q, ast.Name) and (
                            q is not t or isinstance(n, ast.AugAssign)):
                        mu.add(q.id)
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and \
                            n.func.attr in self.MUT and \
                            isinstance(n.func.value, ast.Name):
                        mu.add(n.func.value.id)
                    if isinstance(n.func, ast.Attribute) and n.func.attr in (
                            'pack_into', 'pack_into_dict'):
                        mu |= {x.id for x in n.args
                               if isinstance(x, ast.Name)}
            for k in mu & al.keys():
                for a in al[k]:
                    if self.meta is None or a not in self.meta['attrset']:
                        out.setdefault(a, set()).add('<alias>')
                    self.aliased.add(a)
        for m in self.mods.values():
            visit(m.tree, False, '<module>')
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    aliases(n)
        self.mutated = out

    CONT = {'list', 'dict', 'set', 'bytearray', 'zeros', 'ones', 'empty',
            'array', 'full', 'eye', 'deque', 'defaultdict', 'copy',
            'deepcopy', 'zeros_like', 'ones_like', 'arange'}

    def containers(self, kind='containers'):
        """attribute names initialised with a container somewhere;
        'arrays': with a numpy array and nothing else"""
        if self.meta is not None:
            return self.meta[kind]
        r = self.__dict__.get('_cont')
        if r is not None:
            return r[kind]
        r, arr, oth = set(), set(), set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.AnnAssign):
                    tg, v = [n.target], n.value
                elif isinstance(n, ast.Assign):
                    tg, v = n.targets, n.value
                else:
                    continue
                c = v
                if isinstance(c, ast.BinOp):       # [0]*n
                    c = c.left if isinstance(c.left, ast.List) else c.right
                ok = isinstance(c, (ast.List, ast.Dict, ast.Set,
                                    ast.ListComp, ast.DictComp))
                if isinstance(v, ast.Call):
                    f = v.func
                    ok = (f.attr if isinstance(f, ast.Attribute) else
                          f.id if isinstance(f, ast.Name) else '') in self.CONT
                npy = isinstance(v, ast.Call) and ast.unparse(
                    v.func).startswith('np.')
                for t in tg:
                    if isinstance(t, ast.Attribute):
                        if npy and ok:
                            arr.add(t.attr)
                        elif ok:
                            oth.add(t.attr)
                if ok:
                    r |= {t.attr for t in tg if isinstance(t, ast.Attribute)}
        self._cont = {'containers': r, 'arrays': arr - oth,
                      'nested': self._nested()}
        return self._cont[kind]

    def _isnew(self, v):
        if isinstance(v, ast.Call):
            f = v.func
            return (f.attr if isinstance(f, ast.Attribute) else
                    f.id if isinstance(f, ast.Name) else '') in self.CONT
        return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                              ast.DictComp))

    def _nested(self):
        """attribute names whose elements are containers that some function
        changes in place"""
        has, chg = set(), set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(
                                t.value, ast.Attribute) and \
                                self._isnew(n.value):
                            has.add(t.value.attr)
                        if isinstance(t, ast.Attribute):
                            v = n.value
                            e = v.elts if isinstance(v, ast.List) else \
                                [v.elt] if isinstance(v, ast.ListComp) else \
                                [v.value] if isinstance(v, ast.DictComp) else \
                                v.values if isinstance(v, ast.Dict) else []
                            if e and all(map(self._isnew, e)):
                                has.add(t.attr)
                if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                loc = {}
                for k in ast.walk(n):
                    if isinstance(k, ast.Assign) and len(k.targets) == 1 and \
                            isinstance(k.targets[0], ast.Name) and \
                            isinstance(k.value, ast.Subscript) and isinstance(
                                k.value.value, ast.Attribute):
                        loc[k.targets[0].id] = k.value.value.attr
                for k in ast.walk(n):
                    t = None
                    if isinstance(k, ast.Subscript) and isinstance(
                            k.ctx, (ast.Store, ast.Del)):
                        t = k.value
                    elif isinstance(k, ast.Call) and isinstance(
                            k.func, ast.Attribute) and k.func.attr in (
                                'append', 'extend', 'update', 'pop', 'clear',
                                'insert', 'remove', 'add'):
                        t = k.func.value
                    elif isinstance(k, ast.AugAssign):
                        t = k.target
                    if isinstance(t, ast.Name) and t.id in loc:
                        chg.add(loc[t.id])
                    elif isinstance(t, ast.Subscript) and isinstance(
                            t.value, ast.Attribute):
                        chg.add(t.value.attr)
        return has & chg

    # ------------------------------------------------- transitive effects

    def declared(self, c):
        """attribute names the methods of a class (or its bases) assign"""
        memo = self.__dict__.setdefault('_decl', {})
        r = memo.get(c.qual)
        if r is None:
            r = set()
            for k in c.mro:
                r |= set(k.attrs)
                for f in k.methods.values():
                    a = f.node.args.posonlyargs + f.node.args.args
                    if f.static or not a:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.value, ast.Name) and n.value.id == a[0].arg \
                                and isinstance(n.ctx, ast.Store):
                            r.add(n.attr)
            if self.meta is not None:
                r |= set(self.meta['declared'].get(c.qual, ()))
            memo[c.qual] = r
        return r

    def _direct(self, fn):
        st, calls = set(), set()

        def root(t):
            while isinstance(t, ast.Subscript):
                t = t.value
            return t.attr if isinstance(t, ast.Attribute) else None
        for n in ast.walk(fn.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            for t in tg:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                          else [t]):
                    a = root(e)
                    if a:
                        st.add(a)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute):
                    if f.attr in self.MUT:
                        a = root(f.value)
                        if a:
                            st.add(a)
                    calls.add(f.attr)
                elif isinstance(f, ast.Name):
                    calls.add(f.id)
        return st, calls

    def effects(self, qual):
        """names of the attributes a call may store to (over-approximate)"""
        memo = self.__dict__.setdefault('_eff', {})
        if qual in memo:
            return memo[qual]
        byname = self.__dict__.get('_byname')
        if byname is None:
            byname = self._byname = {}
            for f in self.fns.values():
                byname.setdefault(f.name, []).append(f)
        seen, todo, out = set(), [self.fns[qual]], set()
        while todo:
            f = todo.pop()
            if f.qual in seen:
                continue
            seen.add(f.qual)
            s_, c_ = self._direct(f)
            out |= s_
            for n in c_:
                todo.extend(byname.get(n, ()))
        memo[qual] = frozenset(out)
        return memo[qual]
