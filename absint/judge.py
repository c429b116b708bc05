"""Compare the facts of the current tree with the reviewed reference."""
import os
import re
from checks import icd
from . import ref, run, diff, edits, terms as X

REFDIR = None
_DOC = {}
META = None
_CUR_ATTRS = None


def doc(mod):
    if mod not in _DOC:
        p = os.path.join(REFDIR, mod + '.json.gz')
        _DOC[mod] = ref.load(p) if os.path.exists(p) else {}
    return _DOC[mod]


def meta():
    global META
    if META is None:
        META = ref.load(os.path.join(REFDIR, '_meta.json.gz'))
        META['attrs'] = set(META['attrs'])
        META['attrset'] = META['attrs']
        META['containers'] = set(META['containers'])
        META['arrays'] = set(META['arrays'])
        META['nested'] = set(META.get('nested', ()))
    return META


SOFTKEY = re.compile(r'\b(%s)\(' % '|'.join(sorted(diff.SOFT - {'old'})) +
                     r'|#[0-9a-f]{12,}|\.\.[0-9a-f]{12,}')


def root(k):
    """access path up to the first index, without the ordering suffix"""
    return re.split(r'[\[#~]', k, maxsplit=1)[0]


def lastattr(k):
    r = root(k)
    return r.rsplit('.', 1)[-1] if '.' in r else r


def short(t, n=240):
    s = X.pp(t)
    return s if len(s) <= n else s[:n] + '...'


def judge(sid, F, prog):
    d = doc(sid.split('.')[0]).get(sid)
    res = {'same': 0, 'soft': [], 'hard': [], 'facts': len(F.f),
           'fns': sorted(F.en.inlined)}
    res['icd'], res['icdn'] = icd.check(sid, F)
    if d is None:
        res['new'] = True
        return ('ok', res)
    from .gen import params
    pr = params(prog.fns[run.SPECS[sid].entry])
    if pr != d['params']:
        res['signature'] = True
        return ('ok', res)
    rd = ref.Reader(d['nodes'])
    rf = d['facts']
    gone, new = {}, {}
    memo = []

    def decs():
        # decisions taken in both trees
        if not memo:
            memo.append(diff.decisions(F.f.values()) & diff.decisions(
                rd.get(i) for _, i in rf.values()))
        return memo[0]
    for k, (dg, i) in rf.items():
        v = F.f.get(k)
        if v is None:
            gone[k] = i
        elif v.dg == dg:
            res['same'] += 1
        else:
            a = rd.get(i)
            if a.dg != dg:
                res['soft'].append((k, 'reference term not rebuilt'))
                continue
            if isold(k, a) and isold(k, v):
                res['same'] += 1
                continue
            r = diff.compare(a, v, decs)
            if r is None:
                res['same'] += 1
            else:
                # a location that is itself undecided is not told apart
                lv = 'soft' if 'if(' in k or 'noname(' in k or \
                    k == '<cells>' else r[0]
                res[lv].append((k, 'reviewed: %s | now: %s' % (
                    short(r[1]), short(r[2]))))
    for k in F.f:
        if k not in rf:
            new[k] = F.f[k]
    if gone or new:
        keydiff(res, gone, new, rd, F, prog)
    sharing(res, d, F)
    if res['soft']:
        promote(res, d, F, prog)
    if F.f:
        k = max(F.f, key=lambda q: (len(q), q))
        res['sample'] = '%s = %s' % (k[:120], short(F.f[k], 200))
    return ('ok', res)


def sharing(res, d, F):
    """objects newly shared, or a shared object rebound instead of changed
    in place (and the reverse)"""
    old = set(d['alias'])
    for a in sorted(F.alias - old):
        dst = a.split('<-')[0].rstrip('[]')
        if dst == 'ret' or dst in meta()['attrs']:
            res['hard'].append(('<sharing>', 'newly the same object, not a '
                                'copy: ' + a))
    sh = meta()['shared']
    ib, ii = set(d['bind']), set(d['inpl'])
    for n in sorted((ib - ii) & (F.inpl - F.bind)):
        if n in sh:
            res['hard'].append(('<sharing>', 'shared container %s: changed '
                                'in place where it was rebound' % n))
    for n in sorted((ii - ib) & (F.bind - F.inpl)):
        if n in sh:
            res['hard'].append(('<sharing>', 'shared container %s: rebound '
                                'where it was changed in place' % n))


NEVER = ('attribute no longer used', 'new attribute')


def promote(res, d, F, prog):
    """undecided differences that a point edit of the source accounts for"""
    global _ED
    if _ED is None or _ED.prog is not prog:
        _ED = edits.Edits(ref.load(os.path.join(REFDIR, '_src.json.gz')), prog)
    v = _ED.verdict(d['fns'], F.en.inlined)
    if v is None:
        return
    keep = []
    for k, m in res['soft']:
        if m in NEVER:
            keep.append((k, m))
        else:
            res['hard'].append((k, 'edited in place in %s; %s' % (
                ', '.join(v[:4]), m)))
    res['soft'] = keep


_ED = None


def isold(k, v):
    return False


def keydiff(res, gone, new, rd, F, prog):
    groups = {}
    for k in gone:
        groups.setdefault(root(k), ([], []))[0].append(k)
    for k in new:
        groups.setdefault(root(k), ([], []))[1].append(k)
    known = meta()['attrs']
    cur = curattrs(prog)
    for g, (ga, na) in sorted(groups.items()):
        a = lastattr(g)
        if g.startswith('<default>') and not ga:
            continue                     # an added optional parameter
        at = '.' in g and not g.startswith('static:')
        if at and ga and not na and a not in cur:
            res['soft'].append((g, 'attribute no longer used'))
            continue
        if at and na and not ga and a not in known:
            res['soft'].append((g, 'new attribute'))
            continue
        ks = ga + na
        sf = g == '<cells>' or any(SOFTKEY.search(k) or 'if(' in k for k in ks)
        if not sf:
            for k in ga:
                if diff.soft(rd.get(gone[k])):
                    sf = True
            for k in na:
                if diff.soft(new[k]):
                    sf = True
        if not sf and not ga and all(trivial(k, new[k]) for k in na):
            continue
        txt = ''
        if ga:
            txt += 'no longer set: %s ' % ', '.join(x[:80] for x in ga[:3])
        if na:
            txt += 'newly set: %s' % ', '.join(
                '%s = %s' % (x[:80], short(new[x], 100)) for x in na[:3])
        res['soft' if sf else 'hard'].append((g, txt))


def trivial(k, v):
    """the location keeps the value it had on entry"""
    return X.pp(v) == k


def curattrs(prog):
    global _CUR_ATTRS
    if _CUR_ATTRS is None:
        from .gen import attr_names
        _CUR_ATTRS = attr_names(prog)
    return _CUR_ATTRS
