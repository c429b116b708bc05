"""Rules that hold for every function in the scope of a property, decided on
the syntax tree and the program model (classes, bases, resolved imports).

Each rule returns (instances, findings); a finding is (rule, construct,
message, qualified function)."""
import ast
import re

MUT = {'append', 'extend', 'update', 'pop', 'remove', 'clear', 'insert',
       'add', 'sort', 'setdefault', 'discard', 'fill', 'popitem', 'reverse'}


def functions(prog):
    for q, f in sorted(prog.fns.items()):
        yield q, f


def selfname(f):
    a = f.node.args.posonlyargs + f.node.args.args
    if f.cls is None or f.static or not a:
        return None
    return a[0].arg


def stmts_in_order(node):
    out = [n for n in ast.walk(node) if hasattr(n, 'lineno')]
    return out


def mutable(e):
    """a class-level or default value that is one shared mutable object"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return mutable(e.left) or mutable(e.right)
    if isinstance(e, ast.Call):
        s = ast.unparse(e.func)
        return s in ('list', 'dict', 'set', 'bytearray', 'np.zeros',
                     'np.ones', 'np.array', 'np.full', 'np.empty', 'np.eye',
                     'defaultdict', 'collections.defaultdict')
    return False


def inplace(n, hit):
    """expression `hit(x)` mutated in place by node n -> True"""
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    b = x.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if hit(b):
                        return True
        if isinstance(n, ast.AugAssign) and hit(n.target):
            return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
            and n.func.attr in MUT:
        b = n.func.value
        while isinstance(b, ast.Subscript):
            b = b.value
        if hit(b):
            return True
    return False


def shared_class_state(prog):
    """A list, dictionary or array that is a class attribute is one object
    for all instances: a method may change it in place only after the
    instance has been given its own (assigned in __init__ or before, in the
    same method)."""
    out, n = [], 0
    for c in prog.classes.values():
        for nm, e in c.attrs.items():
            if not mutable(e):
                continue
            n += 1
            subs = [k for k in prog.classes.values() if c in k.mro]
            done = set()
            for k in subs:
                if k.find_attr(nm) and k.find_attr(nm)[0] is not c:
                    continue
                own = False
                for m in k.mro:
                    i = m.methods.get('__init__')
                    if i is not None and assigns(i, nm):
                        own = True
                if own:
                    continue
                for m in k.mro:
                    for f in m.methods.values():
                        s = selfname(f)
                        if s is None or f.qual in done:
                            continue

                        def hit(b):
                            return isinstance(b, ast.Attribute) and \
                                b.attr == nm and isinstance(
                                    b.value, ast.Name) and b.value.id == s
                        first = firstassign(f, nm)
                        for x in ast.walk(f.node):
                            if inplace(x, hit) and (
                                    first is None or x.lineno < first):
                                # `self.x += v` on an immutable is rebinding
                                if isinstance(x, ast.AugAssign) and hit(
                                        x.target) and not mutable(e):
                                    continue
                                done.add(f.qual)
                                out.append((
                                    'shared-class-state', c.qual + '.' + nm,
                                    '%s changes the %s of the class in place '
                                    '(line %d): all instances share it' % (
                                        f.qual, nm, x.lineno), f.qual))
                                break
    return n, out


def assigns(f, nm):
    return firstassign(f, nm) is not None


def firstassign(f, nm):
    s = selfname(f)
    best = None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and x.attr == nm and isinstance(
                x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                x.value.id == s:
            if best is None or x.lineno < best:
                best = x.lineno
    return best


def mutable_default(prog):
    """A default argument is evaluated once: it may not be changed in place."""
    out, n = [], 0
    for q, f in functions(prog):
        a = f.node.args
        ps = a.posonlyargs + a.args
        prs = list(zip(ps[len(ps)-len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for p, d in prs:
            if not mutable(d):
                continue
            n += 1

            def hit(b):
                return isinstance(b, ast.Name) and b.id == p.arg
            re_ = [x.lineno for x in ast.walk(f.node) if isinstance(
                x, ast.Name) and x.id == p.arg and isinstance(
                    x.ctx, ast.Store)]
            for x in ast.walk(f.node):
                if inplace(x, hit) and not any(r < x.lineno for r in re_):
                    out.append(('mutable-default', '%s(%s)' % (q, p.arg),
                                'default value changed in place (line %d)'
                                % x.lineno, q))
                    break
    return n, out


def shared_module_state(prog):
    """A list, dictionary or array bound at module level is one object for
    the whole process: no function changes it in place, neither by its name,
    nor through a local or attribute that is that object and not a copy."""
    out, n = [], 0
    glob = {}
    for m in prog.mods.values():
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is \
                    not None and mutable(st.value):
                for t in (st.targets if isinstance(st, ast.Assign)
                          else [st.target]):
                    if isinstance(t, ast.Name):
                        glob[m.name, t.id] = st
                        n += 1
    if not glob:
        return n, out

    def resolve(f, e):
        """(module, name) of the module-level object that e denotes"""
        if isinstance(e, ast.Name):
            if (f.mod.name, e.id) in glob:
                return f.mod.name, e.id
            for st in f.mod.tree.body:
                if isinstance(st, ast.ImportFrom) and st.module:
                    for al in st.names:
                        if (al.asname or al.name) == e.id:
                            k = st.module.rsplit('.', 1)[-1], al.name
                            if k in glob:
                                return k
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            for st in f.mod.tree.body:
                nm = None
                if isinstance(st, ast.Import):
                    for al in st.names:
                        if (al.asname or al.name) == e.value.id:
                            nm = al.name
                elif isinstance(st, ast.ImportFrom):
                    for al in st.names:
                        if (al.asname or al.name) == e.value.id:
                            nm = al.name
                if nm and (nm.rsplit('.', 1)[-1], e.attr) in glob:
                    return nm.rsplit('.', 1)[-1], e.attr
        return None
    attrs, other = {}, set()
    for q, f in functions(prog):
        a = f.node.args
        par = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        decl = {x for s in ast.walk(f.node) if isinstance(s, ast.Global)
                for x in s.names}
        loc = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.setdefault(x.id, [])
        s = selfname(f)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and t.id in loc:
                        loc[t.id].append(x.value)
                    elif isinstance(t, ast.Attribute) and s and isinstance(
                            t.value, ast.Name) and t.value.id == s:
                        e = x.value
                        k = None if isinstance(e, ast.Name) and (
                            e.id in par or e.id in loc) else resolve(f, e)
                        if not k:
                            other.add((f.cls, t.attr))
                        else:
                            attrs.setdefault((f.cls, t.attr), []).append(
                                (k, q))

        top = set(map(id, f.node.body))
        asg = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        asg.setdefault(t.id, []).append(x)
        binds = {nm: sum(1 for x in ast.walk(f.node) if isinstance(
            x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store))
            for nm in asg}

        def hit(b, line, f=f, par=par, loc=loc, decl=decl, asg=asg, top=top,
                binds=binds):
            if not isinstance(b, ast.Name) or b.id in decl or (
                    b.id not in par and b.id not in loc):
                return resolve(f, b)
            if binds.get(b.id) != len(asg.get(b.id, ())):
                return None          # also bound by a loop, with, ...
            for x in sorted(asg.get(b.id, ()), key=lambda x: -x.lineno):
                if x.lineno >= line:
                    continue
                v = x.value
                if not (isinstance(v, ast.Name) and (
                        v.id in par or v.id in loc)):
                    k = resolve(f, v)
                    if k:
                        return k
                if id(x) in top:
                    return None
            return None
        for x in ast.walk(f.node):
            got = []
            if inplace(x, lambda b: got.append(hit(b, x.lineno)) or got[-1]):
                k = got[-1]
                if isinstance(x, ast.AugAssign) and isinstance(
                        x.target, ast.Name) and x.target.id not in decl:
                    continue
                out.append(('shared-module-state', '.'.join(k),
                            '%s changes the module-level %s in place (line '
                            '%d): every user in the process sees it' % (
                                q, '.'.join(k), x.lineno), q))
    for (c, at), ks in attrs.items():
        if c is None:
            continue
        for kl in prog.classes.values():
            if c not in kl.mro and kl not in c.mro:
                continue
            if any(b == at and (o in c.mro or c in o.mro)
                   for o, b in other if o is not None):
                continue
            for f in kl.methods.values():
                s = selfname(f)
                if s is None:
                    continue

                def hit2(b):
                    return isinstance(b, ast.Attribute) and b.attr == at \
                        and isinstance(b.value, ast.Name) and b.value.id == s
                for x in ast.walk(f.node):
                    if inplace(x, hit2) and not isinstance(
                            x, ast.AugAssign):
                        out.append((
                            'shared-module-state', '.'.join(ks[0][0]),
                            '%s changes %s in place (line %d), which %s '
                            'bound to the module-level %s without a copy' % (
                                f.qual, at, x.lineno, ks[0][1],
                                '.'.join(ks[0][0])), f.qual))
                        break
    return n, out


def undefined_attr(prog):
    """self.X is read only if some class of the hierarchy, or some code that
    sets attributes of other objects, defines X."""
    setters, strs = set(), set()
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                setters.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                if x.value.isidentifier():
                    strs.add(x.value)
    out, n = [], 0
    for q, f in functions(prog):
        s = selfname(f)
        if s is None:
            continue
        if any(not known_base(prog, k, b) for k in f.cls.mro
               for b in k.node.bases):
            continue
        fam = [k for k in prog.classes.values() if f.cls in k.mro]
        names = set()
        for k in fam:
            for j in k.mro:
                names |= set(j.methods) | set(j.attrs)
                for b in j.node.body:     # annotated or bare declarations
                    if isinstance(b, ast.AnnAssign) and isinstance(
                            b.target, ast.Name):
                        names.add(b.target.id)
                    if isinstance(b, ast.ClassDef):
                        names.add(b.name)
        seen = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) \
                    and isinstance(x.value, ast.Name) and x.value.id == s:
                n += 1
                if x.attr in names or x.attr in setters or x.attr in strs \
                        or x.attr.startswith('__') or x.attr in seen:
                    continue
                seen.add(x.attr)
                out.append(('undefined-attribute', '%s.%s' % (q, x.attr),
                            'self.%s (line %d) is defined nowhere' % (
                                x.attr, x.lineno), q))
    return n, out


def known_base(prog, k, b):
    s = ast.unparse(b)
    if s in ('object', 'IntEnum', 'Enum', 'IntFlag', 'Flag'):
        return s == 'object'
    return any(c.name == s.split('.')[-1] for c in k.bases)


def target(prog, mod, f, fn):
    """the in-repo function or class a call goes to, and whether bound"""
    if isinstance(fn, ast.Name):
        if f is not None and any(
                isinstance(x, ast.Name) and x.id == fn.id and isinstance(
                    x.ctx, ast.Store) for x in ast.walk(f.node)):
            return None
        if f is not None and fn.id in [a.arg for a in f.node.args.args]:
            return None
        r = prog.resolve(mod, fn.id)
        if r and r[0] == 'fn':
            return r[1], False
        if r and r[0] == 'cls':
            c = r[1]
            if c.isenum or any(not known_base(prog, k, b) for k in c.mro
                               for b in k.node.bases) or any(
                    isinstance(d, (ast.Name, ast.Call, ast.Attribute))
                    for d in c.node.decorator_list):
                return None
            i = c.find('__init__')
            return (i, True) if i else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) \
            and f is not None and f.cls is not None \
            and fn.value.id == selfname(f):
        fam = [k for k in prog.classes.values() if f.cls in k.mro]
        ms = {k.find(fn.attr) for k in fam}
        ms.discard(None)
        own = f.cls.find(fn.attr)
        if own is not None and len(ms) == 1 and not own.prop:
            return own, not own.static
    return None


def call_arity(prog):
    """calls of the program's own functions pass arguments that exist and
    leave no required one out"""
    out, n = [], 0
    for q, f in functions(prog):
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'array' \
                    and ast.unparse(x.func.value) in ('np', 'numpy') \
                    and not x.args and not x.keywords:
                out.append(('call-arity', q + '->np.array',
                            'np.array() without argument (line %d)'
                            % x.lineno, q))
            t = target(prog, f.mod.name, f, x.func)
            if t is None:
                continue
            g, bound = t
            if any(isinstance(a, ast.Starred) for a in x.args) or any(
                    k.arg is None for k in x.keywords):
                continue
            n += 1
            a = g.node.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            if bound:
                ps = ps[1:]
            msg = None
            if len(x.args) > len(ps) and a.vararg is None:
                msg = '%d arguments for %d parameters' % (len(x.args), len(ps))
            kws = {k.arg for k in x.keywords}
            ko = {p.arg for p in a.kwonlyargs}
            bad = kws - set(ps) - ko
            if bad and a.kwarg is None:
                msg = 'no parameter ' + ', '.join(sorted(bad))
            req = ps[:len(ps)-len(a.defaults)] if a.defaults else ps
            miss = [p for i, p in enumerate(req)
                    if i >= len(x.args) and p not in kws]
            if miss:
                msg = 'missing ' + ', '.join(miss)
            if msg:
                out.append(('call-arity', '%s->%s' % (q, g.qual),
                            'line %d: %s' % (x.lineno, msg), q))
    return n, out


FLD = re.compile(r'([<>]?)([a-zA-Z])(\d+)')


def fields(fmt):
    """(#values, width) of a bitstruct format, or None"""
    s = fmt.replace(' ', '')
    if not re.fullmatch(r'[<>]?(?:[usfbtrpP]\d+[<>]?)+', s):
        return None
    k = w = 0
    for t, m in re.findall(r'([a-zA-Z])(\d+)', s):
        w += int(m)
        if t not in 'pP':
            k += 1
    return k, w


def bsfmt(x):
    """constant format of a bitstruct call -> (function name, format)"""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
            isinstance(x.func.value, ast.Name) and x.func.value.id in (
                'bs', 'bitstruct') and x.args and isinstance(
                x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
        return x.func.attr, x.args[0].value
    return None


def bit_formats(prog):
    """the number of values of a constant bitstruct format equals the number
    of names (or packed values)"""
    out, n = [], 0
    for q, f in functions(prog):
        for x in ast.walk(f.node):
            b = bsfmt(x)
            if b and b[0] in ('pack', 'pack_into') and not any(
                    isinstance(a, ast.Starred) for a in x.args):
                fl = fields(b[1])
                if fl:
                    n += 1
                    have = len(x.args) - (1 if b[0] == 'pack' else 3)
                    if have != fl[0]:
                        out.append(('bit-format', '%s %r' % (q, b[1]),
                                    'line %d: %d values packed by a format '
                                    'of %d' % (x.lineno, have, fl[0]), q))
            if isinstance(x, ast.Assign) and len(x.targets) == 1:
                t, v = x.targets[0], x.value
                sub = isinstance(v, ast.Subscript) and isinstance(
                    v.slice, ast.Constant)
                b = bsfmt(v.value if sub else v)
                if b and b[0] in ('unpack', 'unpack_from'):
                    fl = fields(b[1])
                    if not fl:
                        continue
                    n += 1
                    if isinstance(t, ast.Tuple) and sub:
                        out.append(('bit-format', '%s %r' % (q, b[1]),
                                    'line %d: one value assigned to %d names'
                                    % (x.lineno, len(t.elts)), q))
                    elif isinstance(t, ast.Tuple) and not any(
                            isinstance(e, ast.Starred) for e in t.elts) \
                            and len(t.elts) != fl[0]:
                        out.append(('bit-format', '%s %r' % (q, b[1]),
                                    'line %d: %d values assigned to %d names'
                                    % (x.lineno, fl[0], len(t.elts)), q))
    return n, out


def class_members(prog):
    """a member read from one of the program's classes or enumerations is
    defined there"""
    out, n = [], 0
    stores = set()
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                stores.add((x.value.id, x.attr))
    for q, f in functions(prog):
        loc = {a.arg for a in f.node.args.args} | {
            x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)}
        seen = set()
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Load) and isinstance(x.value, ast.Name)) \
                    or x.value.id in loc:
                continue
            r = prog.resolve(f.mod.name, x.value.id)
            if not r:
                continue
            if r[0] == 'cls':
                c = r[1]
                if any(not known_base(prog, k, b) and ast.unparse(b) not in (
                        'IntEnum', 'Enum', 'IntFlag', 'Flag')
                        for k in c.mro for b in k.node.bases):
                    continue
                n += 1
                if c.find_attr(x.attr) or c.find(x.attr) or (
                        x.value.id, x.attr) in stores or \
                        x.attr.startswith('_') or c.isenum and x.attr in (
                            'name', 'value'):
                    continue
                k = (c.qual, x.attr)
            elif r[0] == 'mod' and r[1] in prog.mods:
                n += 1
                if x.attr in prog.mods[r[1]].env or prog.resolve(
                        r[1], x.attr):
                    continue
                k = (r[1], x.attr)
            else:
                continue
            if k in seen:
                continue
            seen.add(k)
            out.append(('undefined-member', '%s:%s.%s' % (q, k[0], k[1]),
                        '%s.%s (line %d) does not exist' % (
                            x.value.id, x.attr, x.lineno), q))
    return n, out


def unbound_local(prog):
    """a local name is read only where some assignment can reach"""
    out, n = [], 0
    for q, f in functions(prog):
        bad = Assigned(f.node)
        n += bad.n
        for nm, ln in sorted(bad.bad.items()):
            out.append(('unbound-local', '%s:%s' % (q, nm),
                        '%s (line %d) is read where no assignment reaches'
                        % (nm, ln), q))
    return n, out


class Assigned:
    """may-be-assigned sets: a read of a local outside them must fail"""

    def __init__(self, node):
        self.bad, self.n = {}, 0
        self.locals = set()
        glob = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                glob |= set(x.names)
        self._names(node.body, self.locals)
        self.locals -= glob
        a = node.args
        ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        for v in (a.vararg, a.kwarg):
            if v:
                ps.add(v.arg)
        self.brk, self.cont = [], []
        self.block(node.body, frozenset(ps))

    def _names(self, body, out):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            for x in self.walk(s):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        out.add((al.asname or al.name).split('.')[0])
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)

    @staticmethod
    def walk(s):
        st = [s]
        if isinstance(s, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            st = []
        while st:
            x = st.pop()
            yield x
            for c in ast.iter_child_nodes(x):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                                  ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        yield c
                    continue
                st.append(c)

    def use(self, e, have):
        if e is None:
            return have
        for x in self.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) \
                    and x.id in self.locals:
                self.n += 1
                if x.id not in have and not any(
                        isinstance(y, ast.NamedExpr) for y in ast.walk(e)):
                    self.bad.setdefault(x.id, x.lineno)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                pass
        add = set()
        for x in self.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                add.add(x.id)
        return have | add

    def block(self, body, have):
        """names possibly assigned after the block; None: never reached"""
        for s in body:
            if have is None:
                return None
            have = self.stmt(s, have)
        return have

    @staticmethod
    def join(*hs):
        hs = [h for h in hs if h is not None]
        return frozenset().union(*hs) if hs else None

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return have | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | {(a.asname or a.name).split('.')[0]
                           for a in s.names}
        if isinstance(s, ast.If):
            have = self.use(s.test, have)
            return self.join(self.block(s.body, have),
                             self.block(s.orelse, have) if s.orelse else have)
        if isinstance(s, (ast.For, ast.While)):
            # names of any later iteration count as assigned
            ns = set()
            self._names(s.body, ns)
            if isinstance(s, ast.For):
                have = self.use(s.iter, have)
                inner = self.use(s.target, have)
            else:
                inner = have | ns
                inner = self.use(s.test, inner)
            self.brk.append([])
            self.block(s.body, frozenset(inner | ns))
            b = self.brk.pop()
            r = have | ns | inner
            if s.orelse:
                r = self.block(s.orelse, frozenset(r))
            true = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value
            if true and not b:
                return None
            return self.join(frozenset(r) if not true else None, *b)
        if isinstance(s, ast.Try):
            ns = set()
            self._names(s.body, ns)
            a = self.block(s.body, have)
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            hs = [a]
            for h in s.handlers:
                hv = have | ns | ({h.name} if h.name else set())
                hs.append(self.block(h.body, frozenset(hv)))
            r = self.join(*hs)
            if s.finalbody:
                f = self.block(s.finalbody, frozenset(
                    have | ns | (r or frozenset())))
                r = None if r is None or f is None else r | f
            return r
        if isinstance(s, ast.With):
            for it in s.items:
                have = self.use(it.context_expr, have)
                if it.optional_vars is not None:
                    have = self.use(it.optional_vars, have)
            return self.block(s.body, have)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                have = self.use(c, have)
            return None
        if isinstance(s, ast.Break):
            if self.brk:
                self.brk[-1].append(have)
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals:
                self.n += 1
                if s.target.id not in have:
                    self.bad.setdefault(s.target.id, s.lineno)
            have = self.use(s.value, have)
            return self.use(s.target, have)
        if isinstance(s, ast.Assign):
            have = self.use(s.value, have)
            for t in s.targets:
                have = self.use(t, have)
            return have
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                have = self.use(s.value, have)
                have = self.use(s.target, have)
            return have
        if isinstance(s, ast.Match):
            have = self.use(s.subject, have)
            return self.join(have, *[self.block(c.body, frozenset(
                have | {y.name for y in ast.walk(c.pattern)
                        if getattr(y, 'name', None)})) for c in s.cases])
        for c in ast.iter_child_nodes(s):
            have = self.use(c, have)
        return have


class Definite(Assigned):
    """must-be-assigned sets: a read outside them may fail on some path of
    the control-flow graph (whether or not its conditions can hold)"""

    @staticmethod
    def join(*hs):
        hs = [h for h in hs if h is not None]
        return frozenset.intersection(*map(frozenset, hs)) if hs else None

    def use(self, e, have):
        r = super().use(e, have)
        # whoever gets past a read has the value
        return r if e is None else r | {
            x.id for x in self.walk(e) if isinstance(x, ast.Name)}

    def stmt(self, s, have):
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                have = self.use(s.iter, have)
                inner = self.use(s.target, have)
            else:
                inner = have = self.use(s.test, have)
            self.brk.append([])
            self.block(s.body, frozenset(inner))
            b = self.brk.pop()
            true = isinstance(s, ast.While) and isinstance(
                s.test, ast.Constant) and s.test.value
            if true:
                return self.join(*b)
            r = frozenset(have)
            if s.orelse:
                r = self.block(s.orelse, r)
            return self.join(r, *b)
        if isinstance(s, ast.Try):
            a = self.block(s.body, have)
            if s.orelse and a is not None:
                a = self.block(s.orelse, a)
            hs = [a]
            for h in s.handlers:
                hs.append(self.block(h.body, frozenset(
                    have | ({h.name} if h.name else set()))))
            r = self.join(*hs)
            if s.finalbody:
                f = self.block(s.finalbody, frozenset(have))
                r = None if r is None or f is None else r | f
            return r
        return super().stmt(s, have)


def inverse_tables(prog):
    """a dictionary that is inverted ({t[k]: k for k in t}) has no value
    twice, and a signal table with the same name in two methods of one class
    family is the same table"""
    out, n = [], 0
    tabs = {}
    for q, f in functions(prog):
        loc = {}
        inv = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name) and isinstance(
                        x.value, ast.Dict) and x.value.keys and all(
                        isinstance(k, ast.Constant) for k in x.value.keys):
                loc[x.targets[0].id] = x.value
            if isinstance(x, ast.DictComp) and isinstance(
                    x.key, ast.Subscript) and isinstance(
                    x.value, ast.Name) and ast.unparse(
                    x.key.slice) == x.value.id:
                inv = True
        if inv:
            for nm, d in sorted(loc.items()):
                n += 1
                vs = [ast.unparse(v) for v in d.values]
                dup = sorted({v for v in vs if vs.count(v) > 1})
                if dup:
                    out.append(('inverse-table', '%s.%s' % (q, nm),
                                'the inverted table has %s for two keys '
                                '(line %d)' % (', '.join(dup), d.lineno), q))
                tabs[(f.cls, nm)] = (q, d)
    return n, out


def literals(t, prog, mod):
    """(subject, set of literals) if the test is `subject in literals`"""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        rs = [literals(v, prog, mod) for v in t.values]
        if all(rs) and len({r[0] for r in rs}) == 1:
            return rs[0][0], set().union(*[r[1] for r in rs])
        return None
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    s, c = ast.unparse(t.left), t.comparators[0]
    if isinstance(t.ops[0], ast.Eq):
        es = [c]
    elif isinstance(t.ops[0], ast.In) and isinstance(
            c, (ast.List, ast.Tuple, ast.Set)):
        es = c.elts
    else:
        return None
    vs = set()
    for e in es:
        if isinstance(e, ast.Constant):
            vs.add(repr(e.value))
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = prog.resolve(mod, e.value.id)
            if not r or r[0] != 'cls' or not r[1].isenum:
                return None
            vs.add(r[1].qual + '.' + e.attr)
        else:
            return None
    return s, vs


def called(body):
    return {ast.unparse(x.func) for b in body for x in ast.walk(b)
            if isinstance(x, ast.Call)}


def shadowed_branch(prog):
    """in an if/elif chain over one subject no value is named by a second
    branch that does something else after a first one has taken it"""
    out, n = [], 0
    for q, f in functions(prog):
        inner = set()
        for x in ast.walk(f.node):
            if not isinstance(x, ast.If) or id(x) in inner:
                continue
            taken = {}
            y = x
            while True:
                inner.add(id(y))
                r = literals(y.test, prog, f.mod.name)
                if r:
                    n += 1
                    old = taken.setdefault(r[0], {})
                    here = called(y.body)
                    # naming a value again in a branch that does the same is
                    # only redundant
                    dup = sorted(v for v in r[1] if v in old and
                                 old[v] != here)
                    if dup:
                        out.append((
                            'shadowed-branch', '%s:%s' % (q, ','.join(dup)),
                            'line %d: %s = %s is taken by an earlier branch'
                            % (y.lineno, r[0], ', '.join(dup)), q))
                    for v in r[1]:
                        old.setdefault(v, here)
                if len(y.orelse) == 1 and isinstance(y.orelse[0], ast.If):
                    y = y.orelse[0]
                else:
                    break
    return n, out


OBJ = {'nav', 'obs', 'obsb', 'eph', 'geph', 'seph', 'cs', 'orb', 'bsx'}


def undefined_names(prog):
    """a global name, an imported name, a member of an imported module of
    the program, and an attribute of a navigation, observation, ephemeris or
    correction object that is read is defined somewhere"""
    import builtins
    out, n = [], 0
    stored = set()
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                stored.add(x.attr)
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'setattr':
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    stored.add(x.args[1].value)
            elif isinstance(x, ast.ClassDef):
                for st in x.body:
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        stored.add(st.name)
                    elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                        for t in (st.targets if isinstance(st, ast.Assign)
                                  else [st.target]):
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name):
                                    stored.add(y.id)
    stored |= {'__dict__', '__class__', '__name__'}

    def bound(node):
        """names a scope binds"""
        r = set()
        st = list(ast.iter_child_nodes(node))
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                r.add(x.name)
                continue
            if isinstance(x, ast.Name) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                r.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    r.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, ast.arg):
                r.add(x.arg)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
            elif isinstance(x, ast.Global):
                r |= set(x.names)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                r.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                r.add(x.rest)
            st += list(ast.iter_child_nodes(x))
        return r
    mb = {m.name: bound(m.tree) for m in prog.mods.values()}
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                mb[m.name] |= set(x.names)
    star = {m.name: [x for x in ast.walk(m.tree) if isinstance(
        x, ast.ImportFrom) and any(a.name == '*' for a in x.names)]
        for m in prog.mods.values()}

    def ext(nm, seen=()):
        """names of a module with its star imports; None: unknown"""
        if nm in seen:
            return set()
        r = set(mb[nm])
        for x in star[nm]:
            k = (x.module or '').rsplit('.', 1)[-1]
            if k not in mb or not (x.module or '').startswith('cssrlib') \
                    and not x.level:
                return None
            s = ext(k, seen + (nm,))
            if s is None:
                return None
            r |= s
        return r
    base = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and (
                    x.level or (x.module or '').startswith('cssrlib')):
                k = (x.module or '').rsplit('.', 1)[-1]
                if k not in mb:
                    continue
                e = ext(k)
                for al in x.names:
                    n += 1
                    if e is not None and al.name != '*' and \
                            al.name not in e:
                        out.append(('undefined-name', '%s.%s' % (
                            m.name, al.name), 'imported from %s, which does '
                            'not define it (line %d)' % (k, x.lineno),
                            m.name + '.'))
    for q, f in functions(prog):
        g = ext(f.mod.name)
        mods = {}
        for x in ast.walk(f.mod.tree):
            if isinstance(x, ast.ImportFrom) and x.module == 'cssrlib':
                for al in x.names:
                    mods[al.asname or al.name] = al.name
            elif isinstance(x, ast.Import):
                for al in x.names:
                    if al.name.startswith('cssrlib.') and al.asname:
                        mods[al.asname] = al.name.rsplit('.', 1)[-1]
        loc = bound(f.node)
        for x in ast.walk(f.node):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and \
                    x is not f.node:
                loc |= bound(x)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                n += 1
                if g is not None and x.id not in loc and x.id not in g \
                        and x.id not in base:
                    out.append(('undefined-name', '%s:%s' % (q, x.id),
                                'name %s (line %d) is defined nowhere' % (
                                    x.id, x.lineno), q))
            elif isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Load):
                b = x.value
                if isinstance(b, ast.Name) and b.id in mods and \
                        b.id not in loc and mods[b.id] in mb:
                    n += 1
                    e = ext(mods[b.id])
                    if e is not None and x.attr not in e:
                        out.append(('undefined-name', '%s:%s.%s' % (
                            q, b.id, x.attr), 'module %s has no %s (line %d)'
                            % (mods[b.id], x.attr, x.lineno), q))
                elif (isinstance(b, ast.Name) and b.id in OBJ and
                      b.id in loc or isinstance(b, ast.Attribute) and
                      b.attr in OBJ and isinstance(b.value, ast.Name) and
                      b.value.id == selfname(f)):
                    n += 1
                    if x.attr not in stored:
                        out.append(('undefined-name', '%s:%s.%s' % (
                            q, ast.unparse(b), x.attr), 'no object of the '
                            'program has an attribute %s (line %d)' % (
                                x.attr, x.lineno), q))
    return n, out


def lost_fields(prog):
    """a value taken from the message bits is not overwritten by something
    unrelated before it is used (reports to the console apart) while the name
    is read later."""
    out, n = [], 0

    def loads(st, nm):
        todo, r = [st], False
        while todo:
            x = todo.pop()
            if isinstance(x, ast.If) and 'monlevel' in ast.unparse(x.test):
                todo += x.orelse
                continue
            if isinstance(x, ast.Name) and x.id == nm and isinstance(
                    x.ctx, (ast.Load, ast.Del)):
                return True
            todo += list(ast.iter_child_nodes(x))
        return r

    def bits(v):
        return any(isinstance(c, ast.Call) and any(
            w in ast.unparse(c.func) for w in ('unpack', 'getbit', 'decode',
                                               'from_bytes', 'sval'))
            for c in ast.walk(v))
    for q, f in functions(prog):
        for b in ast.walk(f.node):
            for fld in ('body', 'orelse'):
                blk = getattr(b, fld, None)
                if not isinstance(blk, list):
                    continue
                for p, st in enumerate(blk):
                    if not (isinstance(st, ast.Assign) and bits(st.value) and
                            'unpack' in ast.unparse(st.value)):
                        continue
                    for t in ast.walk(st.targets[0]):
                        if not isinstance(t, ast.Name) or not isinstance(
                                t.ctx, ast.Store) or t.id[0] == '_' or \
                                t.id[:3] in ('tmp', 'dum', 'res', 'rsv', 'spa'):
                            continue
                        n += 1
                        for k, s2 in enumerate(blk[p+1:], p+1):
                            if isinstance(s2, ast.Assign) and any(
                                    isinstance(y, ast.Name) and y.id == t.id
                                    for y in s2.targets):
                                if not loads(s2.value, t.id) and \
                                        not bits(s2.value) and any(
                                            loads(z, t.id)
                                            for z in blk[k+1:]):
                                    out.append((
                                        'lost-field', '%s.%s' % (q, t.id),
                                        '%s decoded in line %d is '
                                        'overwritten unused in line %d' % (
                                            t.id, st.lineno, s2.lineno), q))
                                break
                            if loads(s2, t.id) or any(
                                    isinstance(y, ast.Name) and y.id == t.id
                                    and isinstance(y.ctx, ast.Store)
                                    for y in ast.walk(s2)):
                                break
    return n, out


RULES = [shared_class_state, mutable_default, shared_module_state, undefined_attr, call_arity,
         bit_formats, class_members, unbound_local, inverse_tables,
         shadowed_branch, undefined_names, lost_fields]


def run(prog, pats, only=None):
    """rules restricted to the functions of one property's scope"""
    def inscope(q):
        return any(p.fullmatch(q) or p.fullmatch(q + '@full') for p in pats)
    rules, found = [], []
    for r in RULES:
        if only is not None and r.__name__ not in only:
            continue
        n, fs = r(prog)
        rules.append({'rule': ' '.join((r.__doc__ or r.__name__).split()),
                      'instances': n})
        for rule, con, msg, q in fs:
            if inscope(q):
                found.append((rule, con, msg))
    return rules, found
