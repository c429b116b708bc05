"""Serialised facts: term DAGs as JSON, one document per source module."""
import gzip
import json
from fractions import Fraction
from . import terms as X
from .terms import T


class Writer:
    def __init__(self):
        self.nodes, self.idx = [], {}

    def enc(self, a):
        if isinstance(a, T):
            return {'@': self.idx[a]}
        if isinstance(a, tuple):
            return [self.enc(x) for x in a]
        if a is None or isinstance(a, bool):
            return {'k': a}
        if isinstance(a, str):
            return a
        if isinstance(a, int):
            return {'i': str(a)}
        if isinstance(a, Fraction):
            return {'q': '%d/%d' % (a.numerator, a.denominator)}
        if isinstance(a, float):
            return {'f': repr(a)}
        if isinstance(a, bytes):
            return {'b': a.hex()}
        return {'r': repr(a)}

    def put(self, t):
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if isinstance(x, tuple):
                st.extend((y, False) for y in x if isinstance(y, (T, tuple)))
                continue
            if x in self.idx:
                continue
            if done:
                self.idx[x] = len(self.nodes)
                self.nodes.append(None)
                self.nodes[self.idx[x]] = [x.op] + [self.enc(a)
                                                    for a in x.args]
            else:
                st.append((x, True))
                for y in x.args:
                    if isinstance(y, (T, tuple)):
                        _push(st, y, self.idx)
        return self.idx[t]


def _push(st, y, idx):
    if isinstance(y, T):
        if y not in idx:
            st.append((y, False))
    else:
        for z in y:
            if isinstance(z, (T, tuple)):
                _push(st, z, idx)


class Reader:
    """decode nodes into the current term universe on demand"""

    def __init__(self, nodes):
        self.nodes, self.memo = nodes, {}

    def dec(self, a):
        if isinstance(a, str):
            return a
        if isinstance(a, list):
            return tuple(self.dec(x) for x in a)
        (k, v), = a.items()
        if k == '@':
            return self.memo[v]
        if k == 'k':
            return v
        if k == 'i':
            return int(v)
        if k == 'q':
            return Fraction(v)
        if k == 'f':
            return float(v)
        if k == 'b':
            return bytes.fromhex(v)
        return v

    def deps(self, a, out):
        if isinstance(a, list):
            for x in a:
                self.deps(x, out)
        elif isinstance(a, dict) and '@' in a:
            out.append(a['@'])

    def get(self, i):
        st = [i]
        while st:
            k = st[-1]
            if k in self.memo:
                st.pop()
                continue
            d = []
            for a in self.nodes[k][1:]:
                self.deps(a, d)
            todo = [x for x in d if x not in self.memo]
            if todo:
                st.extend(todo)
                continue
            n = self.nodes[k]
            self.memo[k] = X.mk(n[0], *[self.dec(a) for a in n[1:]])
            st.pop()
        return self.memo[i]


def dag(t, lim):
    """number of distinct nodes, up to lim"""
    seen, st, n = set(), [t], 0
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            n += 1
            if n > lim:
                return n
            st.extend(x.args)
    return n


def save(path, doc):
    raw = json.dumps(doc, separators=(',', ':'), sort_keys=True).encode()
    with open(path, 'wb') as fh:
        with gzip.GzipFile(fileobj=fh, mode='wb', mtime=0, filename='') as z:
            z.write(raw)


def load(path):
    with gzip.open(path, 'rb') as fh:
        return json.loads(fh.read())
