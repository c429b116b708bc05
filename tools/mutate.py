"""Detection estimate: plant single random edits and count how many the
analysis reports.  usage: mutate.py N SEED [FILES] ; not used by any check."""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

SRC = '/repo/src/cssrlib'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod,
       ast.Pow: ast.Mult}


def sites(fn):
    """(kind, path-able node, parent, field, idx)"""
    out = []
    for p in ast.walk(fn):
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and \
                p.func.id == 'print':
            continue
        for f, v in ast.iter_fields(p):
            vs = v if isinstance(v, list) else [v]
            for k, n in enumerate(vs):
                if isinstance(n, ast.Constant) and not isinstance(p, ast.Expr) \
                        and not isinstance(p, ast.JoinedStr):
                    if isinstance(n.value, bool) or \
                            isinstance(n.value, (int, float)):
                        out.append(('const', n))
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not \
                        isinstance(n.left, (ast.List, ast.JoinedStr)) and not (
                        isinstance(n.left, ast.Constant) and
                        isinstance(n.left.value, str)):
                    out.append(('bin', n))
                elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                    out.append(('cmp', n))
                elif isinstance(n, ast.BoolOp):
                    out.append(('bool', n))
                elif isinstance(n, ast.UnaryOp) and isinstance(
                        n.op, (ast.USub, ast.Not)):
                    out.append(('unary', (p, f, k if isinstance(v, list)
                                          else None, n)))
                elif isinstance(n, (ast.Assign, ast.AugAssign)) and \
                        isinstance(v, list):
                    out.append(('del', (v, k)))
                    if isinstance(n, ast.Assign):
                        pass
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    out.append(('attr', n))
                elif isinstance(n, (ast.Continue, ast.Break)) and \
                        isinstance(v, list):
                    out.append(('del', (v, k)))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    out.append(('name', n))
    return out


def attrs(fn):
    return sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)
                   and isinstance(n.ctx, ast.Store)})


def locs(fn):
    return sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                   and isinstance(n.ctx, ast.Store)})


def apply(kind, s, rnd, fn):
    if kind == 'const':
        v = s.value
        if isinstance(v, bool):
            s.value = not v
        elif isinstance(v, int):
            s.value = v + rnd.choice((1, -1, 1)) if v else 1
        else:
            s.value = v * rnd.choice((10, 0.5, -1)) if v else 1.0
    elif kind == 'bin':
        s.op = BIN[type(s.op)]()
    elif kind == 'cmp':
        s.ops[0] = CMP[type(s.ops[0])]()
    elif kind == 'bool':
        s.op = ast.Or() if isinstance(s.op, ast.And) else ast.And()
    elif kind == 'unary':
        p, f, k, n = s
        if k is None:
            setattr(p, f, n.operand)
        else:
            getattr(p, f)[k] = n.operand
    elif kind == 'del':
        v, k = s
        v[k] = ast.copy_location(ast.Pass(), v[k])
    elif kind == 'attr':
        c = [a for a in attrs(fn) if a != s.attr]
        if not c:
            return False
        s.attr = rnd.choice(c)
    elif kind == 'name':
        c = [a for a in locs(fn) if a != s.id]
        if not c or s.id not in locs(fn):
            return False
        s.id = rnd.choice(c)
    return True


def make(seed, files):
    rnd = random.Random(seed)
    f = rnd.choice(files)
    src = open(os.path.join(SRC, f)).read()
    tree = ast.parse(src)
    fns = []

    def walk(b, pre):
        for n in b:
            if isinstance(n, ast.FunctionDef):
                fns.append((pre + n.name, n))
            elif isinstance(n, ast.ClassDef) and not any(
                    'Enum' in ast.unparse(x) for x in n.bases):
                walk(n.body, pre + n.name + '.')
    walk(tree.body, f[:-3] + '.')
    if not fns:
        return None
    w = [len(ast.unparse(n).splitlines()) for _, n in fns]
    q, fn = rnd.choices(fns, w)[0]
    ss = sites(fn)
    if not ss:
        return None
    kinds = sorted({k for k, _ in ss})
    k = rnd.choice(kinds)
    ss = [s for s in ss if s[0] == k]
    s = rnd.choice(ss)[1]
    a = ast.unparse(fn).splitlines()
    if not apply(k, s, rnd, fn):
        return None
    try:
        b = ast.unparse(fn).splitlines()
        out = ast.unparse(tree)
        compile(out, f, 'exec')
    except Exception:
        return None
    d = [(x, y) for x, y in zip(a, b) if x != y][:1] or \
        [(x, '') for x in a if x not in b][:1]
    if not d:
        return None
    return f, q, k, d[0], out


def one(job):
    seed, files = job
    m = make(seed, files)
    if m is None:
        return None
    f, q, k, d, out = m
    root = '/tmp/mut/%d' % seed
    os.makedirs(root + '/src/cssrlib', exist_ok=True)
    for x in os.listdir(SRC):
        if x.endswith('.py') and x != f:
            os.symlink(os.path.join(SRC, x), root + '/src/cssrlib/' + x)
    open(root + '/src/cssrlib/' + f, 'w').write(out)
    r = subprocess.run([sys.executable, '/verif/tools/jone.py', root, q],
                       capture_output=True, text=True)
    shutil.rmtree(root)
    res = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else \
        'CRASH ' + r.stderr[-200:]
    return seed, f, q, k, d, res


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3].split(',') if len(sys.argv) > 3 else [
        x for x in sorted(os.listdir(SRC)) if x.endswith('.py') and x not in (
            '__init__.py', 'plot.py', 'utils.py')]
    os.makedirs('/tmp/mut', exist_ok=True)
    tot = {}
    with mp.Pool(8) as po:
        for r in po.imap_unordered(one, [(seed * 100000 + i, files)
                                         for i in range(n)]):
            if r is None:
                continue
            s, f, q, k, d, res = r
            tag = res.split()[0]
            tot[tag] = tot.get(tag, 0) + 1
            print(tag, s, q, k, '|', d[0].strip()[:110], '=>',
                  d[1].strip()[:110], '|', res[len(tag):][:200], flush=True)
    print(tot)


if __name__ == '__main__':
    main()
